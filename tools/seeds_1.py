H = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/Allocator.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
 dict(id="vec-delete-dtor-after-shift", prop="V04",
  edits=[("src/Vector.c", """    if (vector->destructor)
    {
        for (ZyanUSize i = index; i < index + count; ++i)
        {
            vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
        }
    }

    if (index + count < vector->size)
    {
        ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, count));
    }
""", """    if (index + count < vector->size)
    {
        ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, count));
    }

    if (vector->destructor)
    {
        for (ZyanUSize i = vector->size - count; i < vector->size; ++i)
        {
            vector->destructor(ZYCORE_VECTOR_OFFSET(vector, i));
        }
    }
""")],
  needs="a vector with an element destructor and a deletion that is not at the end",
  breaks="the destructor runs on the wrong elements (stale copies of the last ones) instead of the deleted ones",
  demo=H + r'''
static int seen[8], n;
static void dtor(void* p) { seen[n++] = *(int*)p; }
int main(void)
{
    ZyanVector v; CHECK(ZYAN_SUCCESS(ZyanVectorInit(&v, sizeof(int), 8, dtor)));
    for (int i = 0; i < 5; ++i) ZyanVectorPushBack(&v, &i);
    n = 0; CHECK(ZYAN_SUCCESS(ZyanVectorDeleteRange(&v, 1, 2)));
    CHECK(n == 2 && seen[0] == 1 && seen[1] == 2);
    n = 0; ZyanVectorDestroy(&v);
    return 0;
}'''),
 dict(id="vec-bsearch-stops-at-any-match", prop="V06",
  edits=[("src/Vector.c", """            if (cmp == 0)
            {
                status = ZYAN_STATUS_TRUE;
            }
""", """            if (cmp == 0)
            {
                status = ZYAN_STATUS_TRUE;
                l = mid;
                break;
            }
""")],
  needs="a sorted range that contains the key more than once",
  breaks="binary search reports some matching position instead of the first one",
  demo=H + r'''
static ZyanI32 cmp(const int* a, const int* b) { return *a < *b ? -1 : *a > *b; }
int main(void)
{
    ZyanVector v; ZyanVectorInit(&v, sizeof(int), 8, 0);
    int a[] = { 1, 4, 4, 4, 4, 9 }, k = 4; ZyanUSize f;
    for (int i = 0; i < 6; ++i) ZyanVectorPushBack(&v, &a[i]);
    CHECK(ZyanVectorBinarySearch(&v, &k, &f, (ZyanComparison)cmp) == ZYAN_STATUS_TRUE);
    CHECK(f == 1);
    ZyanVectorDestroy(&v);
    return 0;
}'''),
 dict(id="vec-reserve-shrinks", prop="V02",
  edits=[("src/Vector.c", "    if (capacity > vector->capacity)\n    {\n        ZYAN_CHECK(ZyanVectorReallocate(vector, capacity));",
                          "    if (capacity != vector->capacity)\n    {\n        ZYAN_CHECK(ZyanVectorReallocate(vector, capacity));")],
  needs="reserving less than the current size",
  breaks="the storage is cut below the number of stored elements: size exceeds capacity",
  demo=H + r'''
int main(void)
{
    ZyanVector v; ZyanVectorInit(&v, sizeof(int), 2, 0);
    for (int i = 0; i < 40; ++i) ZyanVectorPushBack(&v, &i);
    ZyanUSize s, c; CHECK(ZYAN_SUCCESS(ZyanVectorReserve(&v, 3)));
    ZyanVectorGetSize(&v, &s); ZyanVectorGetCapacity(&v, &c);
    CHECK(s <= c);
    ZyanVectorDestroy(&v);
    return 0;
}'''),
 dict(id="vec-emplace-fixed-buffer-overrun", prop="V01",
  edits=[("src/Vector.c", """    if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
    {
        ZYAN_CHECK(ZyanVectorReallocate(vector,
            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
    }

    if (index < vector->size)
    {
        ZYAN_CHECK(ZyanVectorShiftRight(vector, index, 1));
    }

    *element""", """    if (vector->allocator && ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
    {
        ZYAN_CHECK(ZyanVectorReallocate(vector,
            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
    }

    if (index < vector->size)
    {
        ZYAN_CHECK(ZyanVectorShiftRight(vector, index, 1));
    }

    *element""")],
  needs="emplacing one element too many into a vector on a caller-provided buffer",
  breaks="the element is written behind the caller's buffer",
  demo=H + r'''
int main(void)
{
    int* buf = malloc(3 * sizeof(int));
    ZyanVector v; ZyanVectorInitCustomBuffer(&v, sizeof(int), buf, 3, 0);
    for (int i = 0; i < 3; ++i) CHECK(ZYAN_SUCCESS(ZyanVectorPushBack(&v, &i)));
    void* x = 0;
    CHECK(ZyanVectorEmplace(&v, &x, 0) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE);
    free(buf);
    return 0;
}'''),
 dict(id="alloc-realloc-clobbers-pointer", prop="M01",
  edits=[("src/Allocator.c", """    if (!x)
    {
        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    }
    *p = x;
""", """    *p = x;
    if (!x)
    {
        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    }
""")],
  needs="a reallocation that fails",
  breaks="the container loses its only pointer to the still allocated block",
  flags="", demo=H + r'''
int main(void)
{
    ZyanVector v; ZyanVectorInit(&v, 1, 4, 0);
    char x = 'x'; ZyanVectorPushBack(&v, &x);
    CHECK(!ZYAN_SUCCESS(ZyanVectorReserve(&v, (ZyanUSize)1 << 61)));
    CHECK(v.data != 0);
    CHECK(*(const char*)ZyanVectorGet(&v, 0) == 'x');
    ZyanVectorDestroy(&v);
    return 0;
}'''),
 dict(id="str-duplicate-buffer-no-terminator", prop="S01",
  edits=[("src/String.c", """    const ZyanUSize len = source->string.vector.size;
    if (capacity < len)
""", """    const ZyanUSize len = source->string.vector.size;
    if (capacity < len - 1)
""")],
  needs="duplicating into a buffer that has room for the characters but not for the terminator",
  breaks="the terminator is written behind the caller's buffer",
  demo=H + r'''
int main(void)
{
    char* buf = malloc(5); ZyanString s; ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("hello");
    CHECK(ZyanStringDuplicateCustomBuffer(&s, &v, buf, 5) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE);
    free(buf);
    return 0;
}'''),
 dict(id="str-lower-misses-z", prop="S07",
  edits=[("src/String.c", """        if ((c >= 'A') && (c <= 'Z'))
        {
            *s = c | 32;""", """        // '_' and the brackets behind the letters must not change
        if ((c - 'A') * ('Z' - c) > 0)
        {
            *s = c | 32;""")],
  needs="a text containing 'A' or 'Z'",
  breaks="the first and last letter of the alphabet keep their case",
  demo=H + r'''
int main(void)
{
    ZyanString s; ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("ZEBRA [@]"); const char* d;
    ZyanStringDuplicate(&s, &v, 0); CHECK(ZYAN_SUCCESS(ZyanStringToLowerCase(&s))); ZyanStringGetData(&s, &d);
    CHECK(!strcmp(d, "zebra [@]"));
    ZyanStringDestroy(&s);
    return 0;
}'''),
 dict(id="str-rpos-range-start", prop="S06",
  edits=[("src/String.c", """    const char* s = (const char*)haystack->string.vector.data + index - 1;
    const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
    for (; s >= (const char*)haystack->string.vector.data; --s)
    {
        if (*s != *b)""", """    const char* s = (const char*)haystack->string.vector.data + index - 1;
    const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
    for (; s > (const char*)haystack->string.vector.data; --s)
    {
        if (*s != *b)""")],
  needs="a needle of one character whose only occurrence is the very first character of the haystack",
  breaks="the match is missed",
  demo=H + r'''
int main(void)
{
    ZyanStringView h = ZYAN_DEFINE_STRING_VIEW("x-----"), n = ZYAN_DEFINE_STRING_VIEW("x"); ZyanISize f = 7;
    CHECK(ZyanStringRPos(&h, &n, &f) == ZYAN_STATUS_TRUE);
    CHECK(f == 0);
    return 0;
}'''),
 dict(id="str-concat-second-offset", prop="S03",
  edits=[("src/String.c", """    ZYAN_CHECK(ZyanStringInitCustomBuffer(destination, buffer, capacity));
    ZYAN_ASSERT(destination->vector.capacity >= len);

    ZYAN_MEMCPY(destination->vector.data, s1->string.vector.data, s1->string.vector.size - 1);
    ZYAN_MEMCPY((char*)destination->vector.data + s1->string.vector.size - 1,
        s2->string.vector.data, s2->string.vector.size - 1);""", """    ZYAN_CHECK(ZyanStringInitCustomBuffer(destination, buffer, capacity));
    ZYAN_ASSERT(destination->vector.capacity >= len);

    ZYAN_MEMCPY(destination->vector.data, s1->string.vector.data, s1->string.vector.size - 1);
    ZYAN_MEMCPY((char*)destination->vector.data + len - s2->string.vector.size,
        s2->string.vector.data, ZYAN_MIN(s2->string.vector.size - 1, capacity - len));""")],
  needs="concatenating into a caller buffer with less spare room than the second text is long",
  breaks="the second text is copied incompletely",
  demo=H + r'''
int main(void)
{
    char b[12]; memset(b, '#', 12);
    ZyanString s; ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("hello "), w = ZYAN_DEFINE_STRING_VIEW("world"); const char* d;
    CHECK(ZYAN_SUCCESS(ZyanStringConcatCustomBuffer(&s, &v, &w, b, 12))); ZyanStringGetData(&s, &d);
    CHECK(!strcmp(d, "hello world"));
    return 0;
}'''),
 dict(id="str-truncate-no-terminator", prop="S02",
  edits=[("src/String.c", """    ZYAN_CHECK(ZyanVectorDeleteRange(&string->vector, index, string->vector.size - index - 1));
    ZYCORE_STRING_NULLTERMINATE(string);""", """    // The terminator moves along with the characters behind the deleted range
    ZYAN_CHECK(ZyanVectorDeleteRange(&string->vector, index + 1, string->vector.size - index - 1));""")],
  needs="truncating a string",
  breaks="the truncated string is not terminated any more",
  demo=H + r'''
int main(void)
{
    ZyanString s; ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("hello world"); const char* d; ZyanUSize n;
    ZyanStringDuplicate(&s, &v, 0); CHECK(ZYAN_SUCCESS(ZyanStringTruncate(&s, 5)));
    ZyanStringGetData(&s, &d); ZyanStringGetSize(&s, &n);
    CHECK(n == 5 && d[5] == 0);
    ZyanStringDestroy(&s);
    return 0;
}'''),
]
