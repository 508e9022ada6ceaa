"""string changes that only show in long strings"""
import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_10.py"))["B"]
S = "src/String.c"
SEEDS = [
 dict(id="str-compare-narrow", prop="S07",
  edits=[(S, "    ZyanUSize i;\n    for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)\n    {\n        if (a[i] == b[i])", "    ZyanUSize i;\n    for (i = 0; ((ZyanU16)(i + 1) < s1->string.vector.size) && ((ZyanU16)(i + 1) < s2->string.vector.size); ++i)\n    {\n        if (a[i] == b[i])")],
  needs="equal strings of more than 65535 characters", breaks="memory behind the strings is compared as well",
  demo=B + r'''
#include <string.h>
int main(void)
{
    static char x[70001], y[70001];
    ZyanStringView a, b;
    ZyanI32 r = 9;
    memset(x, 'a', 70000);
    memset(y, 'a', 70000);
    OK(ZyanStringViewInsideBufferEx(&a, x, 66000));
    OK(ZyanStringViewInsideBufferEx(&b, y, 66000));
    CHECK(ZyanStringCompare(&a, &b, &r) == ZYAN_STATUS_TRUE && r == 0);
    return 0;
}
'''),
 dict(id="str-lpos-narrow-result", prop="S06",
  edits=[(S, """                *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                return ZYAN_STATUS_TRUE;
            }
            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
            {
                *found_index = -1;
                return ZYAN_STATUS_FALSE;
            }
            if (*a++ != *b++)""", """                *found_index = (ZyanI16)(s - (const char*)haystack->string.vector.data);
                return ZYAN_STATUS_TRUE;
            }
            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
            {
                *found_index = -1;
                return ZYAN_STATUS_FALSE;
            }
            if (*a++ != *b++)""")],
  needs="a match behind the first 32767 characters", breaks="the reported position is another one",
  demo=B + r'''
#include <string.h>
int main(void)
{
    static char x[40001];
    ZyanStringView a, b;
    ZyanISize at = 0;
    memset(x, 'a', 40000);
    x[39000] = 'b';
    OK(ZyanStringViewInsideBufferEx(&a, x, 40000));
    OK(ZyanStringViewInsideBuffer(&b, "b"));
    CHECK(ZyanStringLPos(&a, &b, &at) == ZYAN_STATUS_TRUE && at == 39000);
    return 0;
}
'''),
]
