H = r'''
#include <Zycore/ArgParse.h>
#include <Zycore/Allocator.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static int live, fail_at = -1, calls;
static ZyanStatus al(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n)
{
    (void)a;
    if (calls++ == fail_at) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    *p = malloc(e * n + 1);
    memset(*p, 0xAA, e * n + 1);
    ++live;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n)
{
    (void)a;
    if (calls++ == fail_at) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    *p = realloc(*p, e * n + 1);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus de(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n)
{
    (void)a; (void)e; (void)n;
    free(p);
    --live;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanAllocator A;
static ZyanVector P;
static const char* tok;
static ZyanArgParseConfig cfg;
#define PARSE(defs, mn, mx, ...) parse(defs, mn, mx, (const char*[]){ "x", __VA_ARGS__ }, sizeof((const char*[]){ "x", __VA_ARGS__ }) / sizeof(char*))
static ZyanStatus parse(const ZyanArgParseDefinition* d, ZyanUSize mn, ZyanUSize mx, const char** argv, ZyanUSize n)
{
    ZyanAllocatorInit(&A, al, re, de);
    /* an exact-size copy, so that reading past the last token is noticed */
    const char** v = (const char**)malloc(n * sizeof(char*));
    memcpy(v, argv, n * sizeof(char*));
    memset(&cfg, 0, sizeof(cfg));
    cfg.argv = v; cfg.argc = n; cfg.min_unnamed_args = mn; cfg.max_unnamed_args = mx; cfg.args = d;
    tok = "unset";
    memset(&P, 0, sizeof(P));
    ZyanStatus s = ZyanArgParseEx(&cfg, &P, &tok, &A);
    free(v);
    return s;
}
static int arg(ZyanUSize i, const ZyanArgParseDefinition* d, const char* val)
{
    const ZyanArgParseArg* a = 0;
    if (!ZYAN_SUCCESS(ZyanVectorGetPointer(&P, i, (const void**)&a)) || a->def != d) return 0;
    if (!val) return a->has_value == ZYAN_FALSE;
    const char* s = 0;
    ZyanUSize n = 0;
    if (a->has_value != ZYAN_TRUE) return 0;
    ZyanStringViewGetData(&a->value, &s);
    ZyanStringViewGetSize(&a->value, &n);
    return n == strlen(val) && !memcmp(s, val, n);
}
static ZyanUSize num(void) { ZyanUSize n = 0; ZyanVectorGetSize(&P, &n); return n; }
static const ZyanArgParseDefinition D[] = {
    { "--verbose", ZYAN_TRUE, ZYAN_FALSE }, { "-a", ZYAN_TRUE, ZYAN_FALSE }, { "-b", ZYAN_TRUE, ZYAN_FALSE },
    { "-n", ZYAN_FALSE, ZYAN_FALSE }, { "--num", ZYAN_FALSE, ZYAN_FALSE }, { 0, 0, 0 } };
static const ZyanArgParseDefinition R[] = { { "-a", ZYAN_TRUE, ZYAN_FALSE }, { "-n", ZYAN_FALSE, ZYAN_TRUE }, { 0, 0, 0 } };
static const ZyanArgParseDefinition BAD[] = { { "-a", ZYAN_TRUE, ZYAN_FALSE }, { "name", ZYAN_TRUE, ZYAN_FALSE }, { 0, 0, 0 } };
'''
F = "src/ArgParse.c"
class Body(str):
    def __mod__(s, x):
        return s.replace('\n%s\n', '\n' + x, 1)


BODY = Body(H + r'''
int main(void)
{
    CHECK(PARSE(D, 0, 2, "-ab", "-n5", "f", "--num", "7", "--verbose") == ZYAN_STATUS_SUCCESS && num() == 6);
    CHECK(arg(0, &D[1], 0) && arg(1, &D[2], 0) && arg(2, &D[3], "5") && arg(3, 0, "f") && arg(4, &D[4], "7") && arg(5, &D[0], 0));
    ZyanVectorDestroy(&P);
    CHECK(live == 0);
%s
    CHECK(live == 0);
    return 0;
}
''')
SEEDS = [
 dict(id="args-prefix-match", prop="A01",
  edits=[(F, "                    if (ZYAN_STRCMP(def->name, cur_arg) == 0)\n", "                    if (ZYAN_STRNCMP(def->name, cur_arg, arg_len) == 0)\n")],
  needs="a long option that is a proper prefix of a defined one",
  breaks="abbreviated options are accepted instead of refused",
  demo=BODY % r'''
    CHECK(PARSE(D, 0, 2, "--verb") == ZYAN_STATUS_ARG_NOT_UNDERSTOOD && !strcmp(tok, "--verb"));
    CHECK(PARSE(D, 0, 2, "--verboses") == ZYAN_STATUS_ARG_NOT_UNDERSTOOD);
'''),
 dict(id="args-dash-in-cluster", prop="A01",
  edits=[(F, "                    if (ZYAN_STRLEN(def->name) == 2 &&\n                        def->name[0] == '-' &&\n", "                    if (def->name[0] == '-' &&\n")],
  needs="a cluster with a dash in it and a definition with two dashes",
  breaks="the dash of a cluster selects the first long option",
  demo=BODY % r'''
    CHECK(PARSE(D, 0, 2, "-a-") == ZYAN_STATUS_ARG_NOT_UNDERSTOOD);
'''),
 dict(id="args-required-position", prop="A01",
  edits=[(F, "        for (ZyanUSize i = 0; i < num_parsed_args; ++i)\n", "        for (ZyanUSize i = 0; i < num_parsed_args - num_unnamed_args; ++i)\n")],
  needs="a required argument behind an unnamed one",
  breaks="the required argument is reported as missing",
  demo=BODY % r'''
    CHECK(PARSE(R, 0, 2, "f", "-n", "5") == ZYAN_STATUS_SUCCESS && num() == 2 && arg(0, 0, "f") && arg(1, &R[1], "5"));
    ZyanVectorDestroy(&P);
    CHECK(PARSE(R, 0, 2, "f", "-a") == ZYAN_STATUS_REQUIRED_ARG_MISSING && !strcmp(tok, "-n"));
'''),
 dict(id="args-dash-value", prop="A01",
  edits=[(F, "                    if (read_ptr[1])\n", "                    if (read_ptr[1] && read_ptr[1] != '-')\n")],
  needs="an attached value that begins with a dash",
  breaks="the attached value is dropped and the next token taken instead",
  demo=BODY % r'''
    CHECK(PARSE(D, 0, 2, "-n-5", "f") == ZYAN_STATUS_SUCCESS && num() == 2 && arg(0, &D[3], "-5") && arg(1, 0, "f"));
    ZyanVectorDestroy(&P);
'''),
 dict(id="args-limit-after-end-marker", prop="A01",
  edits=[(F, "        ++num_unnamed_args;\n", "        num_unnamed_args += accept_dash_args;\n")],
  needs="unnamed arguments behind the end marker",
  breaks="they count neither for the maximum nor for the minimum",
  demo=BODY % r'''
    CHECK(PARSE(D, 0, 1, "f", "--", "-a") == ZYAN_STATUS_TOO_MANY_ARGS && !strcmp(tok, "-a"));
    CHECK(PARSE(D, 2, 2, "f", "--", "-a") == ZYAN_STATUS_SUCCESS && num() == 2 && arg(1, 0, "-a"));
    ZyanVectorDestroy(&P);
'''),
 dict(id="args-memset-pointer-size", prop="A01",
  edits=[(F, """                ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));

                // Find corresponding argument definition.
                for (const ZyanArgParseDefinition* def = cfg->args; def && def->name; ++def)
                {
                    if (ZYAN_STRLEN(""", """                ZYAN_MEMSET(parsed_arg, 0, sizeof(parsed_arg));

                // Find corresponding argument definition.
                for (const ZyanArgParseDefinition* def = cfg->args; def && def->name; ++def)
                {
                    if (ZYAN_STRLEN(""")],
  needs="element storage that is not zero already",
  breaks="a boolean flag claims to have a value",
  demo=BODY % ""),
 dict(id="args-last-of-cluster", prop="A02",
  edits=[(F, """                        if (i == cfg->argc - 1)
                        {
                            err = ZYAN_STATUS_ARG_MISSES_VALUE;
                            ZYAN_ERR_TOK(cur_arg)
""", """                        if (read_ptr == cur_arg + 1 && i == cfg->argc - 1)
                        {
                            err = ZYAN_STATUS_ARG_MISSES_VALUE;
                            ZYAN_ERR_TOK(cur_arg)
""")],
  needs="the last token is a cluster whose last flag, not its first, wants a value",
  breaks="the token behind the end of the list is read",
  demo=BODY % r'''
    CHECK(PARSE(D, 0, 2, "-n") == ZYAN_STATUS_ARG_MISSES_VALUE);
    CHECK(PARSE(D, 0, 2, "f", "-abn") == ZYAN_STATUS_ARG_MISSES_VALUE && !strcmp(tok, "-abn"));
'''),
 dict(id="args-init-first", prop="A02",
  edits=[(F, """    // Initialize output vector.
    ZYAN_CHECK(ZyanVectorInitEx(parsed, sizeof(ZyanArgParseArg), cfg->argc, ZYAN_NULL, allocator,
        ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD));

""", ""), (F, "    // Check argument syntax.\n", """    // Initialize output vector.
    ZYAN_CHECK(ZyanVectorInitEx(parsed, sizeof(ZyanArgParseArg), cfg->argc, ZYAN_NULL, allocator,
        ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD));

    // Check argument syntax.
""")],
  needs="a malformed definition",
  breaks="the output vector is still allocated when the definitions are refused",
  demo=BODY % r'''
    CHECK(PARSE(BAD, 0, 2, "f") == ZYAN_STATUS_INVALID_ARGUMENT);
'''),
 dict(id="args-required-leak", prop="A02",
  edits=[(F, """            ZYAN_ERR_TOK(def->name);
            goto failure;
""", """            ZYAN_ERR_TOK(def->name);
            return err;
""")],
  needs="a missing required argument",
  breaks="the failed parse leaves the output vector allocated",
  demo=BODY % r'''
    CHECK(PARSE(R, 0, 2, "f", "-a") == ZYAN_STATUS_REQUIRED_ARG_MISSING && !strcmp(tok, "-n"));
'''),
]
