H = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <Zycore/Format.h>
#include <Zycore/LibC.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static int same(const ZyanString* s, const char* t)
{
    return s->vector.size == strlen(t) + 1 && s->vector.size <= s->vector.capacity && !memcmp(s->vector.data, t, strlen(t) + 1);
}
'''
SEEDS = [
 dict(id="fmt-hex-nibble-room", prop="F03",
  edits=[("src/Format.c", """    for (ZyanI8 i = ((value & 0xFFFFFFFF00000000) ?
        ZYCORE_MAXCHARS_HEX_64 : ZYCORE_MAXCHARS_HEX_32) - 1; i >= 0; --i)
    {
        const ZyanU8 v = (value >> i * 4) & 0x0F;
        if (!n)
        {
            if (!v)
            {
                continue;
            }
            if (remaining <= (ZyanU8)i)
""", """    for (ZyanI8 i = ((value & 0xFFFFFFFF00000000) ?
        ZYCORE_MAXCHARS_HEX_64 : ZYCORE_MAXCHARS_HEX_32) - 1; i >= 0; --i)
    {
        const ZyanU8 v = (value >> i * 4) & 0x0F;
        if (!n)
        {
            if (!v)
            {
                continue;
            }
            if (remaining < (ZyanU8)i)
""")],
  needs="a hexadecimal number with exactly one digit more than fits into the remaining capacity",
  breaks="the terminator is written behind the storage instead of growing or refusing",
  demo=H + r'''
int main(void)
{
    static struct { char text[8]; char guard[4]; } m;
    ZyanString s;
    memset(&m, 0x55, sizeof(m));
    CHECK(ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&s, m.text, sizeof(m.text))));
    CHECK(ZYAN_SUCCESS(ZyanStringAppendHexU(&s, 0xABCDEF0, 0, ZYAN_TRUE)));
    CHECK(same(&s, "ABCDEF0"));
    CHECK(ZYAN_SUCCESS(ZyanStringClear(&s)));
    CHECK(ZyanStringAppendHexU(&s, 0x12345678, 0, ZYAN_TRUE) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE);
    CHECK(m.guard[0] == 0x55 && same(&s, ""));
    return 0;
}
'''),
 dict(id="fmt-dec-zero", prop="F01",
  edits=[("src/Format.c", """    while (value >= 100)
    {
        const ZyanU64 value_old = value;
        buffer_write_pointer -= 2;
        value /= 100;
        ZYAN_MEMCPY(buffer_write_pointer, &DECIMAL_LOOKUP[(value_old - (value * 100)) * 2], 2);
    }
    buffer_write_pointer -= 2;
    ZYAN_MEMCPY(buffer_write_pointer, &DECIMAL_LOOKUP[value * 2], 2);

    const ZyanUSize offset_odd    = (ZyanUSize)(value < 10);
""", """    while (value >= 100)
    {
        const ZyanU64 value_old = value;
        buffer_write_pointer -= 2;
        value /= 100;
        ZYAN_MEMCPY(buffer_write_pointer, &DECIMAL_LOOKUP[(value_old - (value * 100)) * 2], 2);
    }
    if (value)
    {
        buffer_write_pointer -= 2;
        ZYAN_MEMCPY(buffer_write_pointer, &DECIMAL_LOOKUP[value * 2], 2);
    }

    const ZyanUSize offset_odd    = (ZyanUSize)(value && (value < 10));
""")],
  needs="the value zero without padding",
  breaks="zero is printed as an empty text",
  demo=H + r'''
int main(void)
{
    for (int pad = 0; pad < 4; ++pad)
    {
        ZyanString s;
        char t[32];
        CHECK(ZYAN_SUCCESS(ZyanStringInit(&s, 4)));
        CHECK(ZYAN_SUCCESS(ZyanStringAppendDecU(&s, 0, pad)));
        sprintf(t, "%0*d", pad, 0);
        CHECK(same(&s, t));
        CHECK(ZYAN_SUCCESS(ZyanStringDestroy(&s)));
    }
    return 0;
}
'''),
 dict(id="fmt-exact-fit", prop="F02",
  edits=[("src/Format.c", """    ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
        string->vector.capacity - len + 1, format, arglist);
""", """    ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
        string->vector.capacity - len, format, arglist);
""")],
  needs="a formatted text that fills the remaining capacity exactly",
  breaks="the last character of the formatted text is lost",
  demo=H + r'''
int main(void)
{
    for (int n = 0; n <= 8; ++n)
    {
        char room[16], t[32];
        ZyanString s;
        CHECK(ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&s, room, sizeof(room))));
        CHECK(ZYAN_SUCCESS(ZyanStringAppendFormat(&s, "%s", "abcdefgh")));
        if (n == 8)
        {
            CHECK(!ZYAN_SUCCESS(ZyanStringAppendFormat(&s, "%0*d", n, 7)));
            continue;
        }
        CHECK(ZYAN_SUCCESS(ZyanStringAppendFormat(&s, "%.*s", n, "12345678")));
        sprintf(t, "abcdefgh%.*s", n, "12345678");
        CHECK(same(&s, t));
    }
    return 0;
}
'''),
 dict(id="fmt-dec-pad-over-capacity", prop="F01",
  edits=[("src/Format.c", """ZyanStatus ZyanStringAppendDecU64(ZyanString* string, ZyanU64 value, ZyanU8 padding_length)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    char buffer[ZYCORE_MAXCHARS_DEC_64];
    char *buffer_end = &buffer[ZYCORE_MAXCHARS_DEC_64];
    char *buffer_write_pointer = buffer_end;
""", """ZyanStatus ZyanStringAppendDecU64(ZyanString* string, ZyanU64 value, ZyanU8 padding_length)
{
    if (!string)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    char buffer[ZYCORE_MAXCHARS_DEC_64 - 1];
    char *buffer_end = &buffer[ZYCORE_MAXCHARS_DEC_64 - 1];
    char *buffer_write_pointer = buffer_end;
""")],
  needs="a number with 19 or 20 decimal digits",
  breaks="the first digits are written below the digit buffer",
  demo=H + r'''
int main(void)
{
    ZyanU64 v = 18446744073709551615u;
    char t[32];
    for (; v; v /= 10)
    {
        ZyanString s;
        CHECK(ZYAN_SUCCESS(ZyanStringInit(&s, 4)));
        CHECK(ZYAN_SUCCESS(ZyanStringAppendDecU(&s, v, 0)));
        sprintf(t, "%llu", (unsigned long long)v);
        CHECK(same(&s, t));
        CHECK(ZYAN_SUCCESS(ZyanStringDestroy(&s)));
    }
    return 0;
}
'''),
]
