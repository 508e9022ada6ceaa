"""changes that only show when there is much to count"""
import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
NOLIBC = runpy.run_path(os.path.join(D, "seeds_11.py"))["NOLIBC"]
A = "src/ArgParse.c"; L = "include/Zycore/LibC.h"
ARGS = r'''
#include <Zycore/ArgParse.h>
#include <string.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
 dict(id="args-name-first-characters", prop="A01",
  edits=[(A, "                    if (ZYAN_STRCMP(def->name, cur_arg) == 0)", "                    if (ZYAN_STRNCMP(def->name, cur_arg, 32) == 0)")],
  needs="two names whose first 32 characters are the same", breaks="an argument selects the definition of another one",
  demo=ARGS + r'''
int main(void)
{
    ZyanArgParseDefinition d[] =
    {
        {"--enable-the-experimental-feature-number-one", ZYAN_TRUE, ZYAN_FALSE},
        {"--enable-the-experimental-feature-number-two", ZYAN_TRUE, ZYAN_FALSE},
        {0}
    };
    const char* argv[] = {"prog", "--enable-the-experimental-feature-number-two", 0};
    ZyanArgParseConfig cfg = {argv, 2, 0, 4, d};
    ZyanVector p;
    const char* tok = 0;
    const ZyanArgParseArg* a;
    CHECK(ZyanArgParse(&cfg, &p, &tok) == ZYAN_STATUS_SUCCESS);
    a = (const ZyanArgParseArg*)ZyanVectorGet(&p, 0);
    CHECK(a && a->def == &d[1]);
    ZyanVectorDestroy(&p);
    return 0;
}
'''),
 dict(id="args-many-unnamed", prop="A01",
  edits=[(A, "        if (num_unnamed_args > cfg->max_unnamed_args)", "        if ((ZyanU8)num_unnamed_args > cfg->max_unnamed_args)")],
  needs="256 unnamed arguments when fewer are allowed", breaks="the maximum is not kept",
  demo=ARGS + r'''
int main(void)
{
    static const char* argv[270];
    ZyanArgParseDefinition d[] = {{"-a", ZYAN_TRUE, ZYAN_FALSE}, {0}};
    ZyanArgParseConfig cfg = {argv, 261, 0, 255, d};
    ZyanVector p;
    const char* tok = 0;
    for (int i = 0; i < 261; ++i) argv[i] = "x";
    CHECK(ZyanArgParse(&cfg, &p, &tok) == ZYAN_STATUS_TOO_MANY_ARGS);
    return 0;
}
'''),
 dict(id="libc-strlen-narrow", prop="P01", flags="-DZYAN_NO_LIBC",
  edits=[(L, "    return str - p;\n", "    return (ZyanU16)(str - p);\n")],
  needs="a string of 65536 characters or more", breaks="its length is reported modulo 65536",
  demo=NOLIBC + r'''
int main(void)
{
    static char s[70001];
    for (int i = 0; i < 70000; ++i) s[i] = 'a';
    CHECK(ZYAN_STRLEN(s) == 70000);
    return 0;
}
'''),
 dict(id="libc-memmove-low-half", prop="P01", flags="-DZYAN_NO_LIBC",
  edits=[(L, "        for (pd += n, ps += n; n--;)", "        ZyanU16 left = (ZyanU16)n;\n        for (pd += n, ps += n; left--;)")],
  needs="overlapping objects of 65536 bytes or more, moved upwards", breaks="only a part of the bytes is moved",
  demo=NOLIBC + r'''
int main(void)
{
    static char s[70001];
    for (int i = 0; i < 70001; ++i) s[i] = (char)(i % 251);
    ZYAN_MEMMOVE(s + 1, s, 70000);
    for (int i = 0; i < 70000; ++i) CHECK(s[i + 1] == (char)(i % 251));
    return 0;
}
'''),
]
