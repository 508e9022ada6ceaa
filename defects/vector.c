/* Demonstrates the vector defects on the original tree (each line: name, 1 = defect shown). Compile: see run.sh */
#include <stdio.h>
#include <string.h>
#include <Zycore/Vector.h>
#include <Zycore/Allocator.h>
#include <Zycore/LibC.h>
static int fail;
static ZyanStatus A(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { (void)a; *p = ZYAN_MALLOC(e * n); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus R(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n)
{ (void)a; if (fail) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *p = ZYAN_REALLOC(*p, e * n); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus D(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n) { (void)a; (void)e; (void)n; ZYAN_FREE(p); return ZYAN_STATUS_SUCCESS; }
static int dtor_calls;
static void dtor(void* p) { (void)p; ++dtor_calls; }
static ZyanStatus badctor(void* p) { (void)p; return ZYAN_STATUS_FAILED; }
static int eq(const int* a, const int* b) { return *a == *b; }
static void init(ZyanVector* v, ZyanUSize n, ZyanMemberProcedure d)
{
    static ZyanAllocator al; ZyanAllocatorInit(&al, A, R, D); fail = 0;
    ZyanVectorInitEx(v, sizeof(int), 2, d, &al, 2, 4);
    for (int i = 0; i < (int)n; ++i) ZyanVectorPushBack(v, &i);
}
int main(void)
{
    ZyanVector v; int x = 9; void* e; ZyanUSize s, c; ZyanISize f;
    init(&v, 2, 0); fail = 1; ZyanVectorPushBack(&v, &x); ZyanVectorGetCapacity(&v, &c);
    printf("capacity changed by failed growth: %d\n", c != 2);
    init(&v, 3, 0); ZyanVectorEmplaceEx(&v, 0, &e, badctor);
    printf("failed constructor corrupts elements: %d\n", *(int*)ZyanVectorGet(&v, 1) != 1);
    init(&v, 3, 0);
    printf("delete range beyond end accepted: %d\n", ZYAN_SUCCESS(ZyanVectorDeleteRange(&v, 3, (ZyanUSize)-1)));
    init(&v, 3, 0);
    printf("find range beyond end accepted: %d\n",
        ZyanVectorFindEx(&v, &x, &f, (ZyanEqualityComparison)eq, 1, (ZyanUSize)-1) != ZYAN_STATUS_OUT_OF_RANGE);
    init(&v, 40, dtor); dtor_calls = 0; fail = 1;
    ZyanStatus st = ZyanVectorResize(&v, 0); ZyanVectorGetSize(&v, &s);
    printf("failed shrink destroys elements that stay: %d\n", !ZYAN_SUCCESS(st) && dtor_calls == 40 && s == 40);
    init(&v, 40, 0); ZyanVectorResize(&v, 9); fail = 1; ZyanVectorReserve(&v, 9); fail = 0; ZyanVectorReserve(&v, 64); fail = 1;
    st = ZyanVectorPopBack(&v); ZyanVectorGetSize(&v, &s);
    printf("removal done but reported as failed: %d\n", !ZYAN_SUCCESS(st) && s == 8);
    init(&v, 3, 0); 
    ZyanVector w; memset(&w, 0, sizeof w);
    ZyanVectorInit(&w, sizeof(int), 2, 0);
    st = ZyanVectorResize(&w, (ZyanUSize)1 << 63); ZyanVectorGetCapacity(&w, &c);
    printf("resize to 2^63 elements accepted: %d (capacity %llu)\n", ZYAN_SUCCESS(st), (unsigned long long)c);
    ZyanVectorInit(&w, sizeof(int), 2, 0);
    printf("default allocator size overflow accepted: %d\n", ZYAN_SUCCESS(ZyanVectorReserve(&w, ((ZyanUSize)1 << 62) + 1)));
    return 0;
}
