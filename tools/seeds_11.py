"""changes from the blind batteries: each was written from a property and the code, without regard to the checks"""
import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_10.py"))["B"]
F = "src/Format.c"; A = "src/ArgParse.c"; S = "src/String.c"; V = "src/Vector.c"; L = "src/List.c"; BI = "src/Bitset.c"; H = "include/Zycore/LibC.h"
ARG = r"""
#include <Zycore/ArgParse.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <string.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
#define OK(c) CHECK(ZYAN_SUCCESS(c))
static const char* text(const ZyanArgParseArg* a)
{
    const char* p = 0;
    return ZYAN_SUCCESS(ZyanStringViewGetData(&a->value, &p)) ? p : "";
}
"""
NOLIBC = r"""
#include <Zycore/LibC.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
"""
SEEDS = [
dict(id="str-lpos-skip-after-partial", prop="S06",
  edits=[(S, """            if (*a++ != *b++)
            {
                break;
            }
        }
        b = (char*)needle->string.vector.data;
    }""", """            if (*a++ != *b++)
            {
                if (b > (const char*)needle->string.vector.data + 2)
                {
                    // Characters that already matched do not have to be looked at again
                    s = a - 1;
                    if (*s == *(const char*)needle->string.vector.data)
                    {
                        --s;
                    }
                }
                break;
            }
        }
        b = (char*)needle->string.vector.data;
    }""")],
  needs="a needle whose beginning repeats inside itself, found right after a partial match", breaks="an occurrence that overlaps a partial match is skipped",
  demo=B + """
int main(void)
{
    ZyanStringView h, n;
    ZyanISize at;
    OK(ZyanStringViewInsideBuffer(&h, "ababac"));
    OK(ZyanStringViewInsideBuffer(&n, "abac"));
    CHECK(ZyanStringLPos(&h, &n, &at) == ZYAN_STATUS_TRUE && at == 2);
    return 0;
}
"""),
dict(id="vec-find-result-32", prop="V06",
  edits=[(V, "            *found_index = i;\n            return ZYAN_STATUS_TRUE;\n        }\n    }\n\n    *found_index = -1;\n    return ZYAN_STATUS_FALSE;\n}\n\nZyanStatus ZyanVectorBinarySearch(", "            *found_index = (ZyanISize)(i - index) + (ZyanISize)(ZyanU8)index;\n            return ZYAN_STATUS_TRUE;\n        }\n    }\n\n    *found_index = -1;\n    return ZYAN_STATUS_FALSE;\n}\n\nZyanStatus ZyanVectorBinarySearch(")],
  needs="a search that starts at an index above 255", breaks="the position that is reported is too small by a multiple of 256",
  demo=B + """
static ZyanBool eq(const int* a, const int* b) { return *a == *b; }
int main(void)
{
    ZyanVector v;
    ZyanISize at;
    int k;
    OK(ZyanVectorInit(&v, sizeof(int), 400, ZYAN_NULL));
    for (k = 0; k < 400; ++k) OK(ZyanVectorPushBack(&v, &k));
    k = 310;
    CHECK(ZyanVectorFindEx(&v, &k, &at, (ZyanEqualityComparison)&eq, 300, 50) == ZYAN_STATUS_TRUE && at == 310);
    OK(ZyanVectorDestroy(&v));
    return 0;
}
"""),
dict(id="bit-test-msb-32", prop="B02",
  edits=[(BI, "    return ZyanBitsetTest(bitset, bitset->size - 1);", "    return ZyanBitsetTest(bitset, (bitset->size - 1) & 0xFFFF);")],
  needs="a bitset with more than 65536 bits", breaks="the wrong bit is tested",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    OK(ZyanBitsetInit(&b, 70000));
    OK(ZyanBitsetSet(&b, 69999));
    CHECK(ZyanBitsetTestMSB(&b) == ZYAN_STATUS_TRUE);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="bit-count-16", prop="B03",
  edits=[(BI, "        *count += popcnt;", "        *count = (ZyanU16)(*count + popcnt);")],
  needs="more than 65535 bits set", breaks="the number of set bits wraps around",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    OK(ZyanBitsetInit(&b, 70000));
    OK(ZyanBitsetSetAll(&b));
    OK(ZyanBitsetCount(&b, &n));
    CHECK(n == 70000);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="arg-unnamed-recount", prop="A01",
  edits=[(A, "                accept_dash_args = ZYAN_FALSE;", "                accept_dash_args = ZYAN_FALSE;\n                num_unnamed_args = 0;")],
  needs="positional arguments before and after the -- separator", breaks="those before it are not counted against the limits",
  demo=ARG + """
int main(void)
{
    const char* argv[] = { "prog", "x", "--", "y" };
    ZyanArgParseDefinition defs[] = { { ZYAN_NULL, ZYAN_FALSE, ZYAN_FALSE } };
    ZyanArgParseConfig cfg = { argv, 4, 0, 1, defs };
    ZyanVector parsed;
    const char* tok = 0;
    CHECK(ZyanArgParse(&cfg, &parsed, &tok) == ZYAN_STATUS_TOO_MANY_ARGS);
    return 0;
}
"""),
dict(id="arg-required-stops-early", prop="A01",
  edits=[(A, "            if (!arg->def) continue;\n", "            if (!arg->def) break;\n")],
  needs="a positional argument before a required option", breaks="the required option is reported to be missing although it is there",
  demo=ARG + """
int main(void)
{
    const char* argv[] = { "prog", "x", "-a" };
    ZyanArgParseDefinition defs[] = { { "-a", ZYAN_TRUE, ZYAN_TRUE }, { ZYAN_NULL, ZYAN_FALSE, ZYAN_FALSE } };
    ZyanArgParseConfig cfg = { argv, 3, 0, 1, defs };
    ZyanVector parsed;
    OK(ZyanArgParse(&cfg, &parsed, ZYAN_NULL));
    OK(ZyanVectorDestroy(&parsed));
    return 0;
}
"""),
dict(id="arg-value-past-argv", prop="A02",
  edits=[(A, """                    if (i == cfg->argc - 1)
                    {
                        err = ZYAN_STATUS_ARG_MISSES_VALUE;
                        ZYAN_ERR_TOK(cur_arg);""", """                    if (i == cfg->argc)
                    {
                        err = ZYAN_STATUS_ARG_MISSES_VALUE;
                        ZYAN_ERR_TOK(cur_arg);""")],
  needs="a long option whose value is missing at the very end of the command line", breaks="the word after the last one is read",
  demo=ARG + """
int main(void)
{
    const char* argv[] = { "prog", "--aa", "beyond" };
    ZyanArgParseDefinition defs[] = { { "--aa", ZYAN_FALSE, ZYAN_FALSE }, { ZYAN_NULL, ZYAN_FALSE, ZYAN_FALSE } };
    ZyanArgParseConfig cfg = { argv, 2, 0, 1, defs };
    ZyanVector parsed;
    CHECK(ZyanArgParse(&cfg, &parsed, ZYAN_NULL) == ZYAN_STATUS_ARG_MISSES_VALUE);
    return 0;
}
"""),
dict(id="libc-strstr-skip", prop="P01", flags="-DZYAN_NO_LIBC",
  edits=[(H, """        if (!ZYAN_MEMCMP(s1++, s2, n))
        {
            return (char*)(s1 - 1);
        }""", """        if (!ZYAN_STRNCMP(s1, s2, n))
        {
            return (char*)s1;
        }
        s1 += ((n > 2) && (s1[0] == s2[0]) && (s1[1] == s2[1])) ? 2 : 1;""")],
  needs="a needle that begins with a doubled character", breaks="an occurrence that overlaps a partial match is skipped",
  demo=NOLIBC + """
int main(void)
{
    const char* h = "aaab";
    CHECK(ZYAN_STRSTR(h, "aab") == h + 1);
    return 0;
}
"""),
dict(id="sync-leave-foreign", prop="T01",
  edits=[("src/API/Synchronization.c", """        if (error == EPERM)
        {
            return ZYAN_STATUS_INVALID_OPERATION;
        }
        return ZYAN_STATUS_BAD_SYSTEMCALL;""", """        if (error == EPERM)
        {
            return ZYAN_STATUS_SUCCESS;
        }
        return ZYAN_STATUS_BAD_SYSTEMCALL;""")],
  needs="leaving a critical section that the thread does not own", breaks="the failure is reported as success",
  demo=B + """
int main(void)
{
    ZyanCriticalSection c;
    OK(ZyanCriticalSectionInitialize(&c));
    CHECK(ZyanCriticalSectionLeave(&c) == ZYAN_STATUS_INVALID_OPERATION);
    OK(ZyanCriticalSectionDelete(&c));
    return 0;
}
"""),
dict(id="thread-id-cached", prop="T02",
  edits=[("src/API/Thread.c", "    pthread_t ptid = pthread_self();", "    static pthread_t ptid = 0;\n    if (!ptid)\n    {\n        ptid = pthread_self();\n    }")],
  needs="a second thread that asks for its id", breaks="it gets the id of the first thread",
  demo=B + """
#include <pthread.h>
static ZyanThreadId other;
static void* run(void* p) { ZyanThreadGetCurrentThreadId(&other); return p; }
int main(void)
{
    ZyanThreadId mine;
    pthread_t t;
    OK(ZyanThreadGetCurrentThreadId(&mine));
    CHECK(!pthread_create(&t, 0, run, 0));
    pthread_join(t, 0);
    CHECK(mine != other);
    return 0;
}
"""),
dict(id="align-up-unsigned-mask", prop="C02",
  edits=[("include/Zycore/Defines.h", "(((x) + (align) - 1) & ~((align) - 1))", "(((x) + (align) - 1u) & ~((align) - 1u))")],
  needs="a value above 4 GiB and an alignment written as a plain number", breaks="the upper half of the value is cut off",
  demo=B + """
int main(void)
{
    ZyanU64 x = 0x123456789ull;
    CHECK(ZYAN_ALIGN_UP(x, 4096) == 0x123457000ull);
    return 0;
}
"""),
]
