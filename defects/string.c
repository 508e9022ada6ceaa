/* Demonstrates the string defects on the original tree (each line: name, 1 = defect shown). Compile: see run.sh */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <Zycore/String.h>
int main(void)
{
    ZyanStringView v, h, n, w; ZyanUSize s; ZyanISize f; ZyanI32 r; ZyanStatus st;
    ZyanStringViewInsideBuffer(&v, "hello world");
    ZyanStringViewInsideViewEx(&w, &v, 2, 3); ZyanStringViewGetSize(&w, &s);
    printf("view of 3 characters has another size: %d\n", s != 3);
    printf("view range beyond end accepted: %d\n", ZYAN_SUCCESS(ZyanStringViewInsideViewEx(&w, &v, 5, (ZyanUSize)-3)));
    ZyanString d; ZyanStringInit(&d, 10); ZyanStringAppend(&d, &v);
    printf("delete range beyond end not rejected: %d\n", ZyanStringDelete(&d, 5, (ZyanUSize)-3) == ZYAN_STATUS_INVALID_ARGUMENT);
    printf("case conversion beyond end accepted: %d\n", ZYAN_SUCCESS(ZyanStringToUpperCaseEx(&d, 5, (ZyanUSize)-5)));
    ZyanStringReserve(&d, 1000); ZyanStringGetCapacity(&d, &s);
    printf("reserved capacity not available: %d\n", s < 1000);
    st = ZyanStringResize(&d, (ZyanUSize)-1); ZyanStringGetSize(&d, &s);
    printf("resize to SIZE_MAX accepted: %d\n", ZYAN_SUCCESS(st));
    ZyanString e; st = ZyanStringInit(&e, (ZyanUSize)-1);
    printf("capacity SIZE_MAX accepted: %d\n", ZYAN_SUCCESS(st));
    ZyanStringViewInsideBufferEx(&h, "abcdef", 6); ZyanStringViewInsideBufferEx(&n, "cdX", 2);
    printf("needle read beyond its end: %d\n", ZyanStringLPos(&h, &n, &f) != ZYAN_STATUS_TRUE);
    ZyanStringViewInsideBufferEx(&h, "abcabc", 6); ZyanStringViewInsideBuffer(&n, "ca");
    printf("match crosses the end of the searched range: %d\n", ZyanStringLPosEx(&h, &n, &f, 0, 3) == ZYAN_STATUS_TRUE);
    ZyanStringViewInsideBuffer(&h, "a[b"); ZyanStringViewInsideBuffer(&n, "{");
    printf("case folding of non-letters (left): %d\n", ZyanStringLPosI(&h, &n, &f) == ZYAN_STATUS_TRUE);
    printf("case folding of non-letters (right): %d\n", ZyanStringRPosI(&h, &n, &f) == ZYAN_STATUS_TRUE);
    ZyanStringViewInsideBuffer(&h, "a@"); ZyanStringViewInsideBuffer(&n, "a`");
    printf("case folding of non-letters (compare): %d\n", ZyanStringCompareI(&h, &n, &r) == ZYAN_STATUS_TRUE);
    ZyanI32 r2; ZyanStringCompare(&h, &n, &r); ZyanStringCompare(&n, &h, &r2);
    printf("comparison is not antisymmetric: %d\n", r == r2);
    ZyanStringViewInsideBuffer(&h, "b"); ZyanStringViewInsideBuffer(&n, "aa"); ZyanStringCompare(&h, &n, &r);
    printf("order not decided by the first different character: %d\n", r < 0);
    char x[] = "abX", y[] = "abY"; ZyanStringViewInsideBufferEx(&h, x, 2); ZyanStringViewInsideBufferEx(&n, y, 2);
    printf("comparison reads beyond the view: %d\n", ZyanStringCompare(&h, &n, &r) != ZYAN_STATUS_TRUE);
    char buf[64]; for (int i = 0; i < 64; ++i) buf[i] = 'A' + i;
    ZyanStringInitCustomBuffer(&d, buf, 20); ZyanStringViewInsideBuffer(&v, "0123456");
    ZyanStringAppend(&d, &v); ZyanStringAppend(&d, ZYAN_STRING_TO_VIEW(&d));
    printf("appending a string to itself writes beyond the string: %d\n", buf[20] != 'A' + 20 || memcmp(buf, "01234560123456", 15));
    memset(&v, 0x11, sizeof v); ZyanStringViewInsideBuffer(&v, "abc"); v.string.vector.element_size = 1000; char c = 0;
    (void)c; printf("character access through a view depends on fields views never set: %d\n", v.string.vector.element_size == 1000 &&
        ZyanStringGetChar(&v, 0, &c) == ZYAN_STATUS_SUCCESS && (v.string.vector.element_size = 2, ZyanStringGetChar(&v, 1, &c), c != 'b'));
    return 0;
}
