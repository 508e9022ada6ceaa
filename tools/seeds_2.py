H = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <Zycore/Bitset.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
 dict(id="bs-count-swar", prop="B03",
  edits=[("src/Bitset.c", "        popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);\n", "        popcnt = (popcnt + (popcnt >> 2)) & 0x33;\n")],
  needs="a byte with four adjacent bits (one nibble) set",
  breaks="the sum of two bit pairs overflows its two-bit field before it is masked, so the count is too small",
  demo=H + r'''
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 24)));
    for (int v = 0; v < 256; ++v)
    {
        int want = 0;
        for (int i = 0; i < 8; ++i)
        {
            ZyanBitsetAssign(&b, 8 + i, (v >> i) & 1);
            want += (v >> i) & 1;
        }
        CHECK(ZYAN_SUCCESS(ZyanBitsetCount(&b, &n)));
        CHECK(n == (ZyanUSize)want);
    }
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
 dict(id="bs-pop-byte-late", prop="B01",
  edits=[("src/Bitset.c", "    if ((--bitset->size % 8) == 0)\n", "    if ((bitset->size-- % 8) == 0)\n")],
  needs="popping across a byte boundary",
  breaks="the byte is released one pop too early or late: a popped bitset misses the byte of bits that still exist",
  demo=H + r'''
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 16)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetSet(&b, 14)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetPop(&b)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetGetSizeBytes(&b, &n)));
    CHECK(n == 2);
    CHECK(ZyanBitsetTest(&b, 14) == ZYAN_STATUS_TRUE);
    for (int i = 0; i < 7; ++i)
        CHECK(ZYAN_SUCCESS(ZyanBitsetPop(&b)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetGetSizeBytes(&b, &n)));
    CHECK(n == 1);
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
 dict(id="bs-assign-bool", prop="B02",
  edits=[("src/Bitset.c", """    if (value)
    {
        return ZyanBitsetSet(bitset, index);
    }
    return ZyanBitsetReset(bitset, index);
""", """    ZyanU8* byte;
    ZYAN_CHECK(ZyanBitsetReset(bitset, index));
    ZYAN_CHECK(ZyanVectorGetPointerMutable(&bitset->bits, index / 8, (void**)&byte));
    *byte |= (ZyanU8)(value << ZYAN_BITSET_BIT_OFFSET(index));
    return ZYAN_STATUS_SUCCESS;
""")],
  needs="a truth value other than 0 and 1, e.g. the result of a mask operation",
  breaks="the raw value is shifted into the byte: another bit than the addressed one is set",
  demo=H + r'''
int main(void)
{
    ZyanBitset b;
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 16)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetAssign(&b, 5, 5 & 4)));
    CHECK(ZyanBitsetTest(&b, 5) == ZYAN_STATUS_TRUE);
    for (int i = 0; i < 16; ++i)
        CHECK(i == 5 || ZyanBitsetTest(&b, i) == ZYAN_STATUS_FALSE);
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
 dict(id="bs-op-early", prop="B03",
  edits=[("src/Bitset.c", """    const ZyanUSize min = ZYAN_MIN(s1, s2);
    for (ZyanUSize i = 0; i < min; ++i)
""", """    const ZyanUSize min = (s1 == s2) ? s1 : (ZYAN_MIN(destination->size, source->size) / 8);
    for (ZyanUSize i = 0; i < min; ++i)
""")],
  needs="operands of different byte size where the smaller one has a partial last byte",
  breaks="the bits of the partial last byte of the smaller operand are not combined",
  demo=H + r'''
int main(void)
{
    ZyanBitset a, b;
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&a, 20)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 12)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetSetAll(&b)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetOR(&a, &b)));
    for (int i = 0; i < 12; ++i)
        CHECK(ZyanBitsetTest(&a, i) == ZYAN_STATUS_TRUE);
    ZyanBitsetDestroy(&a);
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
 dict(id="bs-flip-partial", prop="B03",
  edits=[("src/Bitset.c", """    for (ZyanUSize i = 0; i < size; ++i)
    {
        ZyanU8* value;
        ZYAN_CHECK(ZyanVectorGetPointerMutable(&bitset->bits, i, (void**)&value));
        *value = ~(*value);
    }
""", """    for (ZyanUSize i = 0; i < size; ++i)
    {
        ZyanU8* value;
        ZYAN_CHECK(ZyanVectorGetPointerMutable(&bitset->bits, i, (void**)&value));
        *value ^= (i < bitset->size / 8) ? 0xFF : (ZyanU8)((1 << (bitset->size % 8)) - 1);
    }
""")],
  needs="a bitset whose size is no multiple of eight",
  breaks="the used bits of the last byte are the most significant ones; flipping the least significant ones leaves the last bits as they were",
  demo=H + r'''
int main(void)
{
    ZyanBitset b;
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 11)));
    CHECK(ZYAN_SUCCESS(ZyanBitsetFlip(&b)));
    for (int i = 0; i < 11; ++i)
        CHECK(ZyanBitsetTest(&b, i) == ZYAN_STATUS_TRUE);
    CHECK(ZyanBitsetAll(&b) == ZYAN_STATUS_TRUE);
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
]
