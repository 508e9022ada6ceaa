"""properties with few planted bugs so far"""
B = r"""
#include <Zycore/Allocator.h>
#include <Zycore/Atomic.h>
#include <Zycore/Bitset.h>
#include <Zycore/Comparison.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <Zycore/Zycore.h>
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Thread.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
#define OK(c) CHECK(ZYAN_SUCCESS(c))
/* an allocator that checks the sizes and can be told to refuse */
static int refuse, wrong, live;
static ZyanStatus allocate(ZyanAllocator* a, void** p, ZyanUSize n, ZyanUSize k)
{
    ZyanUSize* q;
    if (refuse) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    if (!(q = malloc(16 + n * k))) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    *q = n * k; *p = q + 2; ++live;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus reallocate(ZyanAllocator* a, void** p, ZyanUSize n, ZyanUSize k)
{
    ZyanUSize* q;
    if (refuse) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    if (!(q = realloc((ZyanUSize*)*p - 2, 16 + n * k))) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    *q = n * k; *p = q + 2;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus deallocate(ZyanAllocator* a, void* p, ZyanUSize n, ZyanUSize k)
{
    ZyanUSize* q = (ZyanUSize*)p - 2;
    if (*q != n * k) ++wrong;
    --live;
    free(q);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanAllocator A = { allocate, reallocate, deallocate };
static ZyanStatus ctor_fail(void* p) { return ZYAN_STATUS_FAILED; }
"""
SEEDS = [
dict(id="vec-capacity-first", prop="V03",
  edits=[("src/Vector.c", "    ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,\n", "    vector->capacity = capacity;\n    ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,\n")],
  needs="a reallocation that is refused", breaks="the vector believes to have the storage it did not get",
  demo=B + """
int main(void)
{
    ZyanVector v;
    ZyanUSize n;
    int k = 3;
    OK(ZyanVectorInitEx(&v, sizeof(int), 1, ZYAN_NULL, &A, 2, 0));
    OK(ZyanVectorPushBack(&v, &k));
    refuse = 1;
    CHECK(ZyanVectorReserve(&v, 100) == ZYAN_STATUS_NOT_ENOUGH_MEMORY);
    OK(ZyanVectorGetCapacity(&v, &n));
    CHECK(n == 1);
    refuse = 0;
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="vec-delete-before-last", prop="V05",
  edits=[("src/Vector.c", "    if (index + count < vector->size)\n", "    if (index + count + 1 < vector->size)\n")],
  needs="a removal directly before the last element", breaks="the removed element stays and the last one is lost",
  demo=B + """
int main(void)
{
    ZyanVector v;
    int k;
    OK(ZyanVectorInit(&v, sizeof(int), 8, ZYAN_NULL));
    for (k = 0; k < 4; ++k) OK(ZyanVectorPushBack(&v, &k));
    OK(ZyanVectorDelete(&v, 2));
    CHECK(ZYAN_VECTOR_GET(int, &v, 1) == 1 && ZYAN_VECTOR_GET(int, &v, 2) == 3);
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="vec-swap-wide", prop="V05",
  edits=[("src/Vector.c", "    ZYAN_MEMCPY(t, a, vector->element_size);\n", "    const ZyanUSize kept = ZYAN_MIN(vector->element_size, sizeof(*t));\n    ZYAN_MEMCPY(t, a, kept);\n"),
         ("src/Vector.c", "    ZYAN_MEMCPY(b, t, vector->element_size);\n", "    ZYAN_MEMCPY(b, t, kept);\n")],
  needs="elements larger than eight bytes", breaks="only the first eight bytes of the second element are exchanged",
  demo=B + """
typedef struct { long a, b; } E;
int main(void)
{
    ZyanVector v;
    E e[2] = { { 1, 2 }, { 3, 4 } };
    OK(ZyanVectorInit(&v, sizeof(E), 8, ZYAN_NULL));
    OK(ZyanVectorPushBack(&v, &e[0]));
    OK(ZyanVectorPushBack(&v, &e[1]));
    OK(ZyanVectorSwapElements(&v, 0, 1));
    CHECK(ZYAN_VECTOR_GET(E, &v, 0).b == 4 && ZYAN_VECTOR_GET(E, &v, 1).b == 2);
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="vec-duplicate-exact-fit", prop="V03",
  edits=[("src/Vector.c", "    if (capacity < len)\n    {\n        return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;\n", "    if (capacity <= len)\n    {\n        return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;\n")],
  needs="a buffer with room for exactly the elements of the source", breaks="the duplication is refused although everything fits",
  demo=B + """
int main(void)
{
    ZyanVector v, w;
    int k, buffer[4];
    OK(ZyanVectorInit(&v, sizeof(int), 8, ZYAN_NULL));
    for (k = 0; k < 4; ++k) OK(ZyanVectorPushBack(&v, &k));
    OK(ZyanVectorDuplicateCustomBuffer(&w, &v, buffer, 4));
    CHECK(ZYAN_VECTOR_GET(int, &w, 3) == 3);
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="vec-delete-range-sum", prop="V07",
  edits=[("src/Vector.c", "    if (!vector || !count)\n    {\n        return ZYAN_STATUS_INVALID_ARGUMENT;\n    }\n", "    if (!vector)\n    {\n        return ZYAN_STATUS_INVALID_ARGUMENT;\n    }\n    count = ZYAN_MAX(count, 1);\n")],
  needs="a removal of zero elements", breaks="an element is removed although none was to be removed and the call is to be refused",
  demo=B + """
int main(void)
{
    ZyanVector v;
    ZyanUSize n;
    int k;
    OK(ZyanVectorInit(&v, sizeof(int), 8, ZYAN_NULL));
    for (k = 0; k < 4; ++k) OK(ZyanVectorPushBack(&v, &k));
    CHECK(ZyanVectorDeleteRange(&v, 1, 0) == ZYAN_STATUS_INVALID_ARGUMENT);
    OK(ZyanVectorGetSize(&v, &n));
    CHECK(n == 4);
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="str-concat-exact-fit", prop="S04",
  edits=[("src/String.c", """    const ZyanUSize len = s1->string.vector.size + s2->string.vector.size - 1;
    if (capacity < len)
""", """    const ZyanUSize len = s1->string.vector.size + s2->string.vector.size - 1;
    if (capacity < len + 1)
""")],
  needs="a buffer with room for exactly the text and its terminator", breaks="the concatenation is refused although it fits",
  demo=B + """
int main(void)
{
    static const ZyanStringView a = ZYAN_DEFINE_STRING_VIEW("ab"), b = ZYAN_DEFINE_STRING_VIEW("cd");
    ZyanString s;
    char buffer[5];
    OK(ZyanStringConcatCustomBuffer(&s, &a, &b, buffer, 5));
    CHECK(!strcmp(buffer, "abcd"));
    return 0;
}
"""),
dict(id="str-append-terminate-first", prop="S04",
  edits=[("src/String.c", """        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    const ZyanUSize len = destination->vector.size;
""", """        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    const ZyanUSize len = destination->vector.size;
    if (len < destination->vector.capacity)
    {
        ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data, 1);
    }
""")],
  needs="an append that does not fit", breaks="the refused append has overwritten the terminator",
  demo=B + """
int main(void)
{
    static const ZyanStringView b = ZYAN_DEFINE_STRING_VIEW("cdefg");
    ZyanString s;
    char buffer[6];
    memset(buffer, 'x', 6);
    OK(ZyanStringInitCustomBuffer(&s, buffer, 5));
    CHECK(ZyanStringAppend(&s, &b) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE);
    CHECK(buffer[0] == 0);
    return 0;
}
"""),
dict(id="str-view-embedded-null", prop="S05",
  edits=[("src/String.c", "    view->string.vector.data = source->string.vector.data;\n    view->string.vector.size = source->string.vector.size;\n",
   "    view->string.vector.data = source->string.vector.data;\n    view->string.vector.size = ZYAN_STRLEN((const char*)source->string.vector.data) + 1;\n")],
  needs="a source with a null character inside, or one that is part of a longer text", breaks="the view ends at a null character instead of the end of the source",
  demo=B + """
int main(void)
{
    ZyanStringView a, b;
    ZyanUSize n;
    OK(ZyanStringViewInsideBufferEx(&a, "abcdef", 3));
    OK(ZyanStringViewInsideView(&b, &a));
    OK(ZyanStringViewGetSize(&b, &n));
    CHECK(n == 3);
    return 0;
}
"""),
dict(id="str-view-size-by-null", prop="S05",
  edits=[("src/String.c", "    *size = view->string.vector.size - 1;\n", "    *size = ZYAN_STRLEN((const char*)view->string.vector.data);\n")],
  needs="a view of a part of a text", breaks="the reported size reaches to the end of the whole text",
  demo=B + """
int main(void)
{
    ZyanStringView a;
    ZyanUSize n;
    OK(ZyanStringViewInsideBufferEx(&a, "abcdef", 3));
    OK(ZyanStringViewGetSize(&a, &n));
    CHECK(n == 3);
    return 0;
}
"""),
dict(id="fmt-hex-wide-start", prop="F01",
  edits=[("src/Format.c", "    for (ZyanI8 i = ((value & 0xFFFFFFFF00000000) ?\n", "    for (ZyanI8 i = ((value > 0x1FFFFFFFFULL) ?\n")],
  needs="a value between 2^32 and 2^33 - 1", breaks="the ninth digit is lost",
  demo=B + """
int main(void)
{
    ZyanString s;
    const char* p;
    OK(ZyanStringInit(&s, 8));
    OK(ZyanStringAppendHexU(&s, 0x123456789ULL, 0, ZYAN_FALSE));
    OK(ZyanStringGetData(&s, &p));
    CHECK(!strcmp(p, "123456789"));
    OK(ZyanStringDestroy(&s));
    return 0;
}
"""),
dict(id="fmt-hex-pad-equal", prop="F01",
  edits=[("src/Format.c", """    if (remaining < (ZyanUSize)padding_length)
    {
        ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
        remaining = padding_length;
    }

    if (!value)
    {
        const ZyanU8 n = (padding_length ? padding_length : 1);

        if (remaining < (ZyanUSize)n)
        {
            ZYAN_CHECK(ZyanStringResize(string, string->vector.size + n - 1));
        }

        ZYAN_MEMSET((char*)string->vector.data + len - 1, '0', n);
        string->vector.size = len + n;
        ZYCORE_STRING_NULLTERMINATE(string);

        return ZYAN_STATUS_SUCCESS;
    }

    ZyanU8 n = 0;
    char* buffer = ZYAN_NULL;
    for (ZyanI8 i = ((value""", """    if (remaining < (ZyanUSize)padding_length)
    {
        ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
        remaining = padding_length;
    }

    if (!value)
    {
        const ZyanU8 n = ZYAN_MIN(ZYAN_MAX(padding_length, 1), ZYCORE_MAXCHARS_HEX_64);

        if (remaining < (ZyanUSize)n)
        {
            ZYAN_CHECK(ZyanStringResize(string, string->vector.size + n - 1));
        }

        ZYAN_MEMSET((char*)string->vector.data + len - 1, '0', n);
        string->vector.size = len + n;
        ZYCORE_STRING_NULLTERMINATE(string);

        return ZYAN_STATUS_SUCCESS;
    }

    ZyanU8 n = 0;
    char* buffer = ZYAN_NULL;
    for (ZyanI8 i = ((value""")],
  needs="zero with a padding of more than 16 digits", breaks="zero gets fewer digits than requested",
  demo=B + """
int main(void)
{
    ZyanString s;
    ZyanUSize n;
    OK(ZyanStringInit(&s, 8));
    OK(ZyanStringAppendHexU(&s, 0, 20, ZYAN_FALSE));
    OK(ZyanStringGetSize(&s, &n));
    CHECK(n == 20);
    OK(ZyanStringDestroy(&s));
    return 0;
}
"""),
dict(id="vec-destroy-size", prop="M01",
  edits=[("src/Vector.c", "        ZYAN_CHECK(vector->allocator->deallocate(vector->allocator, vector->data,\n            vector->element_size, vector->capacity));",
                          "        ZYAN_CHECK(vector->allocator->deallocate(vector->allocator, vector->data,\n            vector->element_size, ZYAN_MAX(vector->size, 1)));")],
  needs="an allocator that relies on the size of the released block", breaks="the block is handed back with another size than it was allocated with",
  demo=B + """
int main(void)
{
    ZyanVector v;
    int k;
    OK(ZyanVectorInitEx(&v, sizeof(int), 8, ZYAN_NULL, &A, 2, 0));
    for (k = 0; k < 4; ++k) OK(ZyanVectorPushBack(&v, &k));
    OK(ZyanVectorDestroy(&v));
    CHECK(!wrong && !live);
    return 0;
}
"""),
dict(id="alloc-count-overflow", prop="M01",
  edits=[("src/List.c", """        ZYAN_CHECK(list->allocator->deallocate(list->allocator, (void*)node,
            sizeof(ZyanListNode) + list->element_size, 1));""", """        ZYAN_CHECK(list->allocator->deallocate(list->allocator, (void*)node,
            list->element_size, 1));""")],
  needs="an allocator that relies on the size of the released block, and a list that gives back single nodes", breaks="the node is handed back with the size of its element alone",
  demo=B + """
int main(void)
{
    ZyanList l;
    int k;
    OK(ZyanListInitEx(&l, sizeof(int), ZYAN_NULL, &A));
    for (k = 0; k < 4; ++k) OK(ZyanListPushBack(&l, &k));
    OK(ZyanListPopBack(&l));
    OK(ZyanListDestroy(&l));
    CHECK(!wrong && !live);
    return 0;
}
"""),
dict(id="status-code-mask", prop="C03",
  edits=[("include/Zycore/Status.h", "    ((status) & 0xFFFFFu)", "    ((status) & 0xFFFFu)")],
  needs="a status code above 65535", breaks="the upper bits of the code get lost",
  demo=B + """
int main(void)
{
    CHECK(ZYAN_STATUS_CODE(ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER, 0x12345u)) == 0x12345u);
    return 0;
}
"""),
dict(id="section-type-late", prop="T01",
  edits=[("src/API/Synchronization.c", """    pthread_mutexattr_settype(&attribute, PTHREAD_MUTEX_RECURSIVE);

    error = pthread_mutex_init(critical_section, &attribute);
""", """    error = pthread_mutex_init(critical_section, &attribute);
    pthread_mutexattr_settype(&attribute, PTHREAD_MUTEX_RECURSIVE);
""")],
  needs="a thread that enters the section twice", breaks="the mutex is not recursive: entering it again waits forever",
  demo=B + """
int main(void)
{
    ZyanCriticalSection c;
    OK(ZyanCriticalSectionInitialize(&c));
    OK(ZyanCriticalSectionEnter(&c));
    CHECK(ZyanCriticalSectionTryEnter(&c));
    return 0;
}
"""),
dict(id="tls-free-unchecked", prop="T02",
  edits=[("src/API/Thread.c", "    return !pthread_key_delete(index) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_BAD_SYSTEMCALL;\n", "    pthread_key_delete(index);\n    return ZYAN_STATUS_SUCCESS;\n")],
  needs="a slot that was freed already", breaks="the failure is reported as success",
  demo=B + """
int main(void)
{
    ZyanThreadTlsIndex i;
    OK(ZyanThreadTlsAlloc(&i, ZYAN_NULL));
    OK(ZyanThreadTlsFree(i));
    CHECK(!ZYAN_SUCCESS(ZyanThreadTlsFree(i)));
    return 0;
}
"""),
dict(id="tls-set-einval", prop="T02",
  edits=[("src/API/Thread.c", "    const int error = pthread_setspecific(index, data);\n    if (error != 0)\n", "    const int error = pthread_setspecific(index, data);\n    if (error < 0)\n")],
  needs="a slot that does not exist", breaks="the failure is reported as success",
  demo=B + """
int main(void)
{
    ZyanThreadTlsIndex i;
    OK(ZyanThreadTlsAlloc(&i, ZYAN_NULL));
    OK(ZyanThreadTlsFree(i));
    CHECK(ZyanThreadTlsSetValue(i, &i) == ZYAN_STATUS_INVALID_ARGUMENT);
    return 0;
}
"""),
dict(id="list-emplace-link-first", prop="L03",
  edits=[("src/List.c", """    node->prev = ZYAN_NULL;
    node->next = list->head;

    *item = ZYCORE_LIST_GET_NODE_DATA(node);
""", """    node->prev = ZYAN_NULL;
    node->next = list->head;
    if (node->next)
    {
        node->next->prev = node;
    }

    *item = ZYCORE_LIST_GET_NODE_DATA(node);
""")],
  needs="a constructor that fails while the list has elements", breaks="the first element keeps a backward link to a released node",
  demo=B + """
int main(void)
{
    ZyanList l;
    const ZyanListNode* h;
    void* p;
    int k = 5;
    OK(ZyanListInit(&l, sizeof(int), ZYAN_NULL));
    OK(ZyanListPushBack(&l, &k));
    CHECK(ZyanListEmplaceFront(&l, &p, ctor_fail) == ZYAN_STATUS_FAILED);
    OK(ZyanListGetHeadNode(&l, &h));
    OK(ZyanListGetPrevNode(&h));
    CHECK(h == ZYAN_NULL);
    OK(ZyanListDestroy(&l));
    return 0;
}
"""),
dict(id="bs-msb-byte", prop="B02",
  edits=[("src/Bitset.c", "    return ZyanBitsetTest(bitset, bitset->size - 1);\n", "    ZyanUSize bytes;\n    ZYAN_CHECK(ZyanVectorGetSize(&bitset->bits, &bytes));\n    return ZyanBitsetTest(bitset, bytes * 8 - 1);\n")],
  needs="a bitset whose last byte is only partially used", breaks="the last bit is reported as out of range",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    OK(ZyanBitsetInit(&b, 13));
    OK(ZyanBitsetSet(&b, 12));
    CHECK(ZyanBitsetTestMSB(&b) == ZYAN_STATUS_TRUE);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="bs-push-stale", prop="B02",
  edits=[("src/Bitset.c", "    return ZyanBitsetAssign(bitset, bitset->size - 1, value);\n", "    return value ? ZyanBitsetSet(bitset, bitset->size - 1) : ZYAN_STATUS_SUCCESS;\n")],
  needs="a bit set, popped and then a zero pushed", breaks="the pushed zero reads as the popped one",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    OK(ZyanBitsetInit(&b, 3));
    OK(ZyanBitsetPush(&b, ZYAN_TRUE));
    OK(ZyanBitsetPop(&b));
    OK(ZyanBitsetPush(&b, ZYAN_FALSE));
    CHECK(ZyanBitsetTest(&b, 3) == ZYAN_STATUS_FALSE);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="bs-reserve-floor", prop="B01",
  edits=[("src/Bitset.c", "    ZYAN_CHECK(ZyanBitsetGetCapacityBytes(bitset, capacity));\n    *capacity *= 8;\n", "    ZYAN_CHECK(ZyanBitsetGetCapacityBytes(bitset, capacity));\n    *capacity = (ZyanU32)*capacity * 8u;\n")],
  needs="a bitset with storage for 2^32 bits", breaks="the reported capacity is truncated to 32 bits",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    OK(ZyanBitsetInit(&b, 3));
    OK(ZyanBitsetReserve(&b, 0x180000000));
    OK(ZyanBitsetGetCapacity(&b, &n));
    CHECK(n >= 0x180000000);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="bs-reserve-partial", prop="B01",
  edits=[("src/Bitset.c", "    return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));\n", "    return ZyanVectorReserve(&bitset->bits, count / 8);\n")],
  needs="a number of bits that is no multiple of eight", breaks="the reserved storage lacks the byte of the last bits",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    OK(ZyanBitsetInit(&b, 3));
    OK(ZyanBitsetReserve(&b, 8001));
    OK(ZyanBitsetGetCapacity(&b, &n));
    CHECK(n >= 8001);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="atomic-dec-narrow", prop="K01",
  edits=[("include/Zycore/Internal/AtomicGNU.h", "    return (ZyanU64)(__sync_sub_and_fetch(&destination->value, 1, &destination->value));", "    return (ZyanU32)(__sync_sub_and_fetch(&destination->value, 1, &destination->value));")],
  needs="a 64-bit counter above 2^32", breaks="the returned value lacks its upper half",
  demo=B + """
int main(void)
{
    ZyanAtomic64 a;
    a.value = 0x300000005ULL;
    CHECK(ZyanAtomicDecrement64(&a) == 0x300000004ULL);
    return 0;
}
"""),
]
