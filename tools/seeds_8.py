B = r'''
#include <Zycore/ArgParse.h>
#include <Zycore/Allocator.h>
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
# ---------------------------------------------------------------- E01
dict(id="bs-none-short-counter", prop="E01",
  edits=[("src/Bitset.c", """ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    ZyanUSize size;
    ZYAN_CHECK(ZyanVectorGetSize(&bitset->bits, &size));
    for (ZyanUSize i = 0; i < size; ++i)
""", """ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
{
    if (!bitset)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    ZyanUSize size;
    ZYAN_CHECK(ZyanVectorGetSize(&bitset->bits, &size));
    for (ZyanU8 i = 0; i < size; ++i)
""")],
  needs="a bitset of more than 2040 bits, all of them clear",
  breaks="asking whether no bit is set never ends",
  demo=B + r'''
int main(void)
{
    ZyanBitset b;
    alarm(10);
    CHECK(ZYAN_SUCCESS(ZyanBitsetInit(&b, 3000)));
    CHECK(ZyanBitsetNone(&b) == ZYAN_STATUS_TRUE);
    ZyanBitsetDestroy(&b);
    return 0;
}
'''),
dict(id="str-upper-short-counter", prop="S01",
  edits=[("src/String.c", """    char* s = (char*)string->vector.data + index;
    for (ZyanUSize i = index; i < index + count; ++i)
    {
        const char c = *s;
        if ((c >= 'a') && (c <= 'z'))
""", """    char* s = (char*)string->vector.data + index;
    for (ZyanU16 i = 0; i < count; ++i)
    {
        const char c = *s;
        if ((c >= 'a') && (c <= 'z'))
""")],
  needs="an upper-case conversion of more than 65535 characters",
  breaks="the conversion never ends (and leaves the string)",
  demo=B + r'''
int main(void)
{
    ZyanString s;
    ZyanStringView a = ZYAN_DEFINE_STRING_VIEW("abcdefghijklmnopqrstuvwxyz0123456789");
    ZyanUSize n;
    alarm(20);
    CHECK(ZYAN_SUCCESS(ZyanStringInit(&s, 0)));
    for (int i = 0; i < 3000; ++i) CHECK(ZYAN_SUCCESS(ZyanStringAppend(&s, &a)));
    CHECK(ZYAN_SUCCESS(ZyanStringToUpperCase(&s)));
    CHECK(ZYAN_SUCCESS(ZyanStringGetSize(&s, &n)) && n == 108000);
    CHECK(((const char*)s.vector.data)[n - 36] == 'A');
    ZyanStringDestroy(&s);
    return 0;
}
'''),
# ---------------------------------------------------------------- G01
dict(id="fmt-static-buffer", prop="G01",
  edits=[("src/Format.c", "    char buffer[ZYCORE_MAXCHARS_DEC_64];\n", "    static char buffer[ZYCORE_MAXCHARS_DEC_64];\n")],
  needs="a second conversion while the first one grows its string (another thread, or an allocator that formats something)",
  breaks="the first string gets digits of the second number",
  demo=B + r'''
static int busy;
static ZyanString log_;
static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { (void)a; *p = malloc(e * n); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n)
{
    (void)a;
    ZyanStringAppendDecU(&log_, 99999999, 0);      /* keeps a log */
    *p = realloc(*p, e * n);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus de(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n) { (void)a; (void)e; (void)n; free(p); return ZYAN_STATUS_SUCCESS; }
int main(void)
{
    static char buf[256];
    ZyanAllocator a;
    ZyanString s;
    ZyanAllocatorInit(&a, al, re, de);
    CHECK(ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&log_, buf, sizeof(buf))));
    CHECK(ZYAN_SUCCESS(ZyanStringInitEx(&s, 0, &a, 1, 0)));
    for (int i = 0; i < 12; ++i) CHECK(ZYAN_SUCCESS(ZyanStringAppendDecU(&s, 12345678, 0)));
    for (int i = 0; i < 12; ++i) CHECK(!memcmp((const char*)s.vector.data + 8 * i, "12345678", 8));
    ZyanStringDestroy(&s);
    return 0;
}
'''),
dict(id="alloc-lazy-default", prop="G01",
  edits=[("src/Allocator.c", """    static ZyanAllocator allocator =
    {
        &ZyanAllocatorDefaultAllocate,
        &ZyanAllocatorDefaultReallocate,
        &ZyanAllocatorDefaultDeallocate
    };
    return &allocator;
""", """    static ZyanAllocator allocator;
    static ZyanBool initialized = ZYAN_FALSE;
    if (!initialized)
    {
        initialized = ZYAN_TRUE;
        ZyanAllocatorInit(&allocator, &ZyanAllocatorDefaultAllocate,
            &ZyanAllocatorDefaultReallocate, &ZyanAllocatorDefaultDeallocate);
    }
    return &allocator;
""")],
  needs="two threads that use the default allocator for the first time at the same moment",
  breaks="one of them may call a null function pointer",
  flags="-fsanitize=thread",
  demo=B + r'''
#include <pthread.h>
static void* use(void* p)
{
    ZyanVector v;
    (void)p;
    if (!ZYAN_SUCCESS(ZyanVectorInit(&v, 4, 8, ZYAN_NULL))) abort();
    ZyanVectorDestroy(&v);
    return 0;
}
int main(void)
{
    pthread_t t[4];
    for (int i = 0; i < 4; ++i) CHECK(!pthread_create(&t[i], 0, use, 0));
    for (int i = 0; i < 4; ++i) CHECK(!pthread_join(t[i], 0));
    return 0;
}
'''),
dict(id="vec-bsearch-cache", prop="G01",
  edits=[("src/Vector.c", """    ZyanStatus status = ZYAN_STATUS_FALSE;
    ZyanISize l = index;
    ZyanISize h = index + count - 1;
""", """    static ZyanStatus status;
    status = ZYAN_STATUS_FALSE;
    ZyanISize l = index;
    ZyanISize h = index + count - 1;
""")],
  needs="a comparison function that itself searches in another vector, or a second thread",
  breaks="the outer search reports the result of the inner one",
  demo=B + r'''
static ZyanVector keys;
static int inner;
static ZyanI32 plain(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static ZyanI32 ranked(const void* a, const void* b)
{
    /* elements are ranked by where they stand in the key table */
    ZyanUSize x, y;
    ZyanVectorBinarySearch(&keys, a, &x, plain);
    ZyanVectorBinarySearch(&keys, b, &y, plain);
    return (ZyanI32)x - (ZyanI32)y;
}
int main(void)
{
    ZyanVector v;
    ZyanUSize i;
    int k;
    CHECK(ZYAN_SUCCESS(ZyanVectorInit(&keys, sizeof(int), 8, ZYAN_NULL)) && ZYAN_SUCCESS(ZyanVectorInit(&v, sizeof(int), 8, ZYAN_NULL)));
    for (k = 10; k <= 80; k += 10) ZyanVectorPushBack(&keys, &k);
    for (k = 10; k <= 80; k += 20) ZyanVectorPushBack(&v, &k);
    k = 40;
    CHECK(ZyanVectorBinarySearch(&v, &k, &i, ranked) == ZYAN_STATUS_FALSE && i == 2);
    k = 50;
    CHECK(ZyanVectorBinarySearch(&v, &k, &i, ranked) == ZYAN_STATUS_TRUE && i == 2);
    ZyanVectorDestroy(&keys);
    ZyanVectorDestroy(&v);
    return 0;
}
'''),
]
