#include <Zycore/Bitset.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static int fail;
static ZyanStatus al_a(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { *p = malloc(e * n); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus al_r(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { if (fail) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *p = realloc(*p, e * n); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus al_d(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n) { free(p); return ZYAN_STATUS_SUCCESS; }
int main(void)
{
    ZyanBitset b; ZyanUSize n;
    ZyanBitsetInit(&b, 12);
    printf("bit 9 of a 12 bit set cannot be set: %d\n", !ZYAN_SUCCESS(ZyanBitsetSet(&b, 9)));
    ZyanBitsetInit(&b, 8); ZyanBitsetSetAll(&b); ZyanBitsetReset(&b, 4);
    printf("all bits reported as set although bit 4 is clear: %d\n", ZyanBitsetAll(&b) == ZYAN_STATUS_TRUE);
    ZyanBitsetResetAll(&b); ZyanBitsetSet(&b, 4);
    printf("no bit reported as set although bit 4 is: %d\n", ZyanBitsetNone(&b) == ZYAN_STATUS_TRUE);
    ZyanBitsetInit(&b, 0); for (int i = 0; i < 4; ++i) ZyanBitsetPush(&b, 0); ZyanBitsetFlip(&b); ZyanBitsetReset(&b, 0); ZyanBitsetCount(&b, &n);
    printf("count of 3 set bits: %d\n", (int)n);
    ZyanBitsetInit(&b, 0); ZyanBitsetPop(&b); ZyanBitsetGetSize(&b, &n);
    printf("size after pop from empty set: %lld\n", (long long)n);
    ZyanAllocator al; ZyanAllocatorInit(&al, al_a, al_r, al_d);
    ZyanBitsetInitEx(&b, 8, &al, 1, 0); fail = 1;
    ZyanStatus st = ZyanBitsetPush(&b, 1); ZyanBitsetGetSize(&b, &n);
    printf("size changed by failed push: %d\n", !ZYAN_SUCCESS(st) && n != 8);
    fflush(stdout);
    ZyanBitsetReserve(NULL, 8);
    printf("reserve on NULL rejected\n");
    return 0;
}
