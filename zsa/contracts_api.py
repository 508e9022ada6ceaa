"""Properties of the library as a whole, decided on the syntax tree and the compiler's intermediate representation of every
function: no state of its own (G01), complete interface in C and C++ (X01), no dependence on a C library (N01), and the part of
E01 that concerns the call graph."""
import os, re, json, subprocess, tempfile
from . import build
from .build import BuildError
from .interp import natural_loops
from .llvmc import CGlobal, CGep, COther, CInt, Inst, Arg
from concurrent.futures import ThreadPoolExecutor
from .world import Ob, World, TERM

CONFIG = "debug"
SERVES = ["G01", "X01", "K01", "C0[23]", "H01", "N01", TERM]


def ob(w, props, fn, case, what, status, detail="", loc=""):
    o = Ob(tuple(props), fn, case, what, status, detail, loc)
    o.key = what
    w.obs.append(o)


def loc(i):
    f = i.file
    for d in ("/src/", "/include/", "/zsa/"):
        k = f.rfind(d)
        if k >= 0:
            return "%s:%d" % (f[k + 1:], i.line)
    return "%s:%d" % (os.path.basename(f), i.line)


def operands(i):
    if i.op == "phi":
        return [v for _, v in i.x]
    ops = list(i.ops)
    if i.op == "gep":
        ops += [v for v, _ in i.x[1]]
    if i.op == "call" and i.x is not None and not isinstance(i.x, CGlobal):
        ops.append(i.x)
    return ops


def callee(i):
    return i.x.name if i.op == "call" and isinstance(i.x, CGlobal) else None


# ------------------------------------------------------------------------------------------------ G01
# index of the arguments an external function writes through
EXTWRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0], "vsnprintf": [0], "snprintf": [0],
             "sprintf": [0], "vsprintf": [0]}
NOT_REENTRANT = {"strtok", "strerror", "strsignal", "localtime", "gmtime", "asctime", "ctime", "rand", "srand", "drand48", "lrand48", "random", "srandom", "setlocale",
                 "putenv", "setenv", "unsetenv", "tmpnam", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "gethostbyname", "inet_ntoa", "ttyname", "readdir",
                 "signal", "umask", "chdir", "mblen", "mbtowc", "wctomb", "ecvt", "fcvt", "gcvt", "crypt", "ptsname", "localeconv", "hcreate", "hsearch", "basename", "dirname",
                 "getenv", "nl_langinfo", "l64a"}
REENTRANT = re.compile(r"(__)?(mem\w+|str\w+|malloc|calloc|realloc|free|v?sn?printf|isatty|fileno|assert_fail|errno_location|mprotect|msync|mmap|munmap|sysconf|abort"
                       r"|pthread_\w+|is(alpha|digit|xdigit|space|upper|lower)|to(upper|lower)|_?exit|getpagesize|write|read|fwrite|fputs)$")


class Effects:
    """which arguments, global variables and locals every function writes through, over the call graph"""

    def __init__(s, m):
        s.m = m
        s.mut = {n for n, g in m.globals.items() if not g.const and not n.startswith("llvm.")}
        s.defs = [f for f in m.functions.values() if not f.decl]
        s.wparam = {f.name: {} for f in s.defs}     # argument index -> store
        s.ret = {f.name: set() for f in s.defs}     # ("arg", i) / ("glob", name) it may return
        s.wglob = {}                                # (global, function, location) -> how
        s.escape = {}                               # global -> where its address is stored
        ch = True
        while ch:
            ch = False
            for f in s.defs:
                if s.visit(f):
                    ch = True

    def visit(s, f):
        src = {}
        args = {id(a): {("arg", a.idx)} for a in f.args}

        def roots(v):
            if isinstance(v, CGlobal):
                return {("glob", v.name)} if v.name in s.mut else set()
            if isinstance(v, CGep):
                return roots(v.base)
            if isinstance(v, COther):
                return {("glob", n) for n in re.findall(r"@\"?([\w.$]+)", v.text) if n in s.mut}
            if isinstance(v, Arg):
                return args.get(id(v), set())
            if isinstance(v, Inst):
                return src.get(v.id, set())
            return set()
        insts = [i for b in f.blocks for i in b.insts]
        go = True
        while go:
            go = False
            for i in insts:
                r = set()
                if i.op in ("gep", "bitcast", "phi", "select", "inttoptr", "ptrtoint", "add", "sub", "and", "or", "freeze", "addrspacecast"):
                    ops = operands(i)
                    if i.op == "gep":
                        ops = i.ops[:1]
                    if i.op == "select":
                        ops = i.ops[1:]
                    for o in ops:
                        r |= roots(o)
                elif i.op == "call":
                    n = callee(i)
                    if n in s.ret:
                        for k in s.ret[n]:
                            if k[0] == "glob":
                                r.add(k)
                            elif k[1] < len(i.ops):
                                r |= roots(i.ops[k[1]])
                    elif n in ("memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "strchr", "strrchr", "strstr", "memchr") and i.ops:
                        r |= roots(i.ops[0])
                if r - src.get(i.id, set()):
                    src[i.id] = src.get(i.id, set()) | r
                    go = True
        ch = False

        def wrote(v, i, how):
            nonlocal ch
            for k in roots(v):
                if k[0] == "arg":
                    if k[1] not in s.wparam[f.name]:
                        s.wparam[f.name][k[1]] = loc(i)
                        ch = True
                else:
                    key = (k[1], f.name, loc(i))
                    if key not in s.wglob:
                        s.wglob[key] = how
                        ch = True
        for i in insts:
            if i.op == "store":
                wrote(i.ops[1], i, "a store")
                for k in roots(i.ops[0]):
                    if k[0] == "glob":
                        s.escape.setdefault(k[1], set()).add(loc(i))
            elif i.op in ("atomicrmw", "cmpxchg"):
                wrote(i.ops[0], i, "an atomic update")
            elif i.op == "call":
                n = callee(i)
                if n in s.wparam:
                    for k in list(s.wparam[n]):
                        if k < len(i.ops):
                            wrote(i.ops[k], i, "a call of %s, which writes at %s" % (n, s.wparam[n][k]))
                elif n:
                    e = re.sub(r"^llvm\.(\w+)\..*", r"\1", n)
                    for k in EXTWRITES.get(e, range(len(i.ops)) if e.startswith("pthread_") and not e.startswith(("pthread_mutex", "pthread_get", "pthread_set")) else ()):
                        if k < len(i.ops):
                            wrote(i.ops[k], i, "a call of %s" % e)
            elif i.op == "ret":
                for o in i.ops:
                    r = roots(o)
                    if r - s.ret[f.name]:
                        s.ret[f.name] |= r
                        ch = True
        return ch


def state(w, config):
    if w.unroll:
        return
    m = w.m if config == w.config else build.build_module(config)
    E = Effects(m)
    w.funcs |= {f.name for f in E.defs}
    w.inst += sum(len(b.insts) for f in E.defs for b in f.blocks)
    P = ("G01",)
    case = "configuration %s" % config
    # the C library's own strtok keeps its position; so does its replacement
    okglob = {g for g in E.mut if g.startswith("ZYAN_STRTOK.")}
    bad = {}
    for (g, fn, l), how in sorted(E.wglob.items()):
        if g not in okglob:
            bad.setdefault(g, []).append((fn, l, how))
    for g, x in m.globals.items():
        if g.startswith("llvm."):
            continue
        if g in bad:
            continue
        ob(w, P, g, case, "no function changes the static object", "ok",
           "constant" if x.const else "never written" + ("; its address is kept at %s" % ", ".join(sorted(E.escape[g])) if g in E.escape else ""))
    for g, xs in bad.items():
        for fn, l, how in xs[:3]:
            ob(w, P, fn, case, "no function changes the static object", "violated", "%s is changed by %s" % (g, how), l)
    for f in E.defs:
        if not f.file.startswith(os.path.dirname(os.path.abspath(__file__))):
            ext = {}
        else:
            continue
        for b in f.blocks:
            for i in b.insts:
                n = callee(i)
                if n and n in m.functions and m.functions[n].decl and not n.startswith(("llvm.", "inl_", "mac_")):
                    ext.setdefault(n, loc(i))
        for n, l in sorted(ext.items()):
            st = "violated" if n in NOT_REENTRANT else ("ok" if REENTRANT.match(n) else "undecided")
            ob(w, P, f.name, case, "calls only functions that keep no state of the process", st, n, l)


# ------------------------------------------------------------------------------------------------ E01
def callgraph(w):
    if w.unroll:
        return
    for config in ("debug", "libc", "inline"):
        m = w.m if config == w.config else build.build_module(config)
        succ = {}
        for f in m.functions.values():
            if not f.decl:
                succ[f.name] = sorted({callee(i) for b in f.blocks for i in b.insts if callee(i) in m.functions and not m.functions[callee(i)].decl})
        state_ = {}
        cyc = {}

        def dfs(v, path):
            state_[v] = 1
            for x in succ[v]:
                if state_.get(x) == 1:
                    cyc[v] = x
                elif x not in state_:
                    dfs(x, path + [x])
            state_[v] = 2
        for v in succ:
            if v not in state_:
                dfs(v, [v])
        for v in sorted(succ):
            ob(w, (TERM,), v, "configuration %s" % config, "calls do not recur", "undecided" if v in cyc else "ok", "calls %s, which leads back" % cyc[v] if v in cyc else "")


# ------------------------------------------------------------------------------------------------ N01
def freestanding(w):
    if w.unroll:
        return
    P = ("N01",)
    bad = False
    for src in build.sources():
        rel = os.path.relpath(src, build.REPO)
        cmd = ["clang", "-fsyntax-only", "-nostdlibinc", src] + build.BASE + build.CONFIGS["nolibc"]
        r = subprocess.run(cmd, cwd=build.REPO, capture_output=True, text=True)
        msg = next((l for l in r.stderr.split("\n") if "error:" in l), "")
        bad = bad or r.returncode != 0
        ob(w, P, rel, "without a C library", "compiles with the compiler's own headers only", "violated" if r.returncode else "ok", msg.replace(build.REPO + "/", ""),
           re.sub(r"^(.*?:\d+).*", r"\1", msg.replace(build.REPO + "/", "")))
    if bad:
        return
    m = build.build_module("nolibc")
    w.funcs |= {f.name for f in m.functions.values() if not f.decl}
    for f in sorted(m.functions.values(), key=lambda f: f.name):
        if f.decl:
            continue
        ext = {}
        for b in f.blocks:
            for i in b.insts:
                names = [callee(i)] if callee(i) else []
                for o in operands(i):
                    if isinstance(o, CGep):
                        o = o.base
                    if isinstance(o, CGlobal):
                        names.append(o.name)
                    elif isinstance(o, COther):
                        names += re.findall(r"@\"?([\w.$]+)", o.text)
                for n in names:
                    # structure copies become llvm.memcpy, which every freestanding environment has to provide; a call by name is the source's own
                    if n.startswith("llvm.") or n == "<asm>":
                        continue
                    if n in m.functions and not m.functions[n].decl or n in m.globals and m.globals[n].init is not None:
                        continue
                    ext.setdefault(n, loc(i))
        if not ext:
            ob(w, P, f.name, "without a C library", "uses no external symbol", "ok")
        for n, l in sorted(ext.items()):
            ob(w, P, f.name, "without a C library", "uses no external symbol", "violated", "needs " + n, l)


# ------------------------------------------------------------------------------------------------ X01
LANGS = [("c", ["-std=gnu99"]), ("c", ["-std=c11"]), ("c++", ["-std=c++11"]), ("c++", ["-std=gnu++17"])]
LIBC = [("with a C library", []), ("without a C library", ["-DZYAN_NO_LIBC", "-ffreestanding"])]


def headers():
    inc = os.path.join(build.REPO, "include")
    hs = []
    for d, _, fs in os.walk(inc):
        hs += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith(".h")]
    # the internal ones are parts of Atomic.h
    return sorted(h for h in hs if "/Internal/" not in h)


def front(text, lang, flags):
    cmd = ["clang", "-x", lang, "-", "-Iinclude", "-DZYCORE_STATIC_BUILD", "-w"] + flags
    return subprocess.run(cmd, cwd=build.REPO, capture_output=True, text=True, input=text)


def compiles(w):
    if w.unroll:
        return
    jobs = [(h, lang, std, lc, d) for h in headers() for lang, std in LANGS for lc, d in LIBC]

    def one(j):
        h, lang, std, lc, d = j
        # included twice, and followed by a declaration: nothing is left open
        r = front("#include <%s>\n#include <%s>\nint zsa_after_the_header;\n" % (h, h), lang, ["-fsyntax-only"] + std + d)
        return j, r.returncode, next((l for l in r.stderr.split("\n") if "error:" in l), "")
    with ThreadPoolExecutor(8) as ex:
        for (h, lang, std, lc, d), rc, msg in ex.map(one, jobs):
            ob(w, ("X01",), h, "%s, %s" % (std[0][5:], lc), "the header can be used on its own", "violated" if rc else "ok", msg, re.sub(r"^\./|^(.*?:\d+).*", r"\1", msg))
    # one use of a macro per line
    text = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "macros.c")).read()
    for lang, std in LANGS:
        for lc, d in LIBC:
            r = front(text, lang, ["-fsyntax-only"] + std + d)
            errs = [l for l in r.stderr.split("\n") if "error:" in l and l.startswith("<stdin>")]
            bad = {}
            for l in errs:
                k = int(l.split(":")[1])
                m = re.search(r"\bZYAN_[A-Z_]+", text.split("\n")[k - 1])
                bad.setdefault(m.group(0) if m else "macros", l)
            for mac in sorted(set(re.findall(r"\bZYAN_(?:VECTOR|STRING|LIST|DEFINE)_[A-Z_]+", text))):
                ob(w, ("X01",), mac, "%s, %s" % (std[0][5:], lc), "the macro can be used", "violated" if mac in bad else "ok", bad.get(mac, ""))


# uses that only a call or another expression (or one statement) permits: property, macro, line
USES = [("K01", m.split("(")[0], "int use_%s%s(void) { if (zc) %s; else zc = (%s != 0) ? 1 : 2; return %s == 0; }" % (n, sfx, m, m, m))
        for sfx, v in (("", "zp"), ("32", "z32"), ("64", "z64"))
        for n, m in (("cas", "ZYAN_ATOMIC_COMPARE_EXCHANGE%s(%s, 0, 1)" % (sfx, v)), ("inc", "ZYAN_ATOMIC_INCREMENT%s(%s)" % (sfx, v)), ("dec", "ZYAN_ATOMIC_DECREMENT%s(%s)" % (sfx, v)))]
USES += [("C03", "ZYAN_CHECK", "ZyanStatus use_check(ZyanStatus a, ZyanStatus b) { if (zc) ZYAN_CHECK(a); else ZYAN_CHECK(zc ? a : b); return b; }"),
         ("C03", "ZYAN_CHECK", "ZyanStatus use_check2(ZyanStatus a) { for (;;) ZYAN_CHECK(a); }"),
         ("C03", "ZYAN_SUCCESS", "int use_success(ZyanStatus a) { return !ZYAN_SUCCESS(a) && ZYAN_SUCCESS(zc ? a : 0u) ? 1 : 2; }"),
         ("C03", "ZYAN_FAILED", "int use_failed(ZyanStatus a) { return !ZYAN_FAILED(a) && ZYAN_FAILED(zc ? a : 0u) ? 1 : 2; }")]
USES += [("C03", "ZYAN_STATUS_" + n, "int use_%s(ZyanStatus a) { switch (a) { case ZYAN_STATUS_%s: return 1; default: return a == ZYAN_STATUS_%s ? 2 : 3; } }" % (n, n, n)) for n in
         "SUCCESS FAILED TRUE FALSE INVALID_ARGUMENT INVALID_OPERATION ACCESS_DENIED NOT_FOUND OUT_OF_RANGE INSUFFICIENT_BUFFER_SIZE NOT_ENOUGH_MEMORY BAD_SYSTEMCALL OUT_OF_RESOURCES "
         "MISSING_DEPENDENCY ARG_NOT_UNDERSTOOD TOO_FEW_ARGS TOO_MANY_ARGS ARG_MISSES_VALUE REQUIRED_ARG_MISSING".split()]
USES += [("C03", "ZYCORE_VERSION" + n, "int use_version%s[ZYCORE_VERSION%s%s >= 0 ? 1 : 2];" % (n, n, a)) for n, a in (("", ""), ("_MAJOR", "(ZYCORE_VERSION)"), ("_MINOR", "(ZYCORE_VERSION)"),
                                                                                                             ("_PATCH", "(ZYCORE_VERSION)"), ("_BUILD", "(ZYCORE_VERSION)"))]
USES += [("C02", n, "int use_%s[(%s) ? 1 : 2];" % (n, m)) for n, m in (("ZYAN_MIN", "ZYAN_MIN(3, 2) == 2"), ("ZYAN_MAX", "ZYAN_MAX(3, 2) == 3"), ("ZYAN_ABS", "ZYAN_ABS(-3) == 3"),
         ("ZYAN_IS_POWER_OF_2", "ZYAN_IS_POWER_OF_2(4)"), ("ZYAN_IS_ALIGNED_TO", "ZYAN_IS_ALIGNED_TO(4, 4)"), ("ZYAN_ALIGN_UP", "ZYAN_ALIGN_UP(3, 4) == 4"),
         ("ZYAN_ALIGN_DOWN", "ZYAN_ALIGN_DOWN(3, 4) == 0"), ("ZYAN_BITS_TO_REPRESENT", "ZYAN_BITS_TO_REPRESENT(5) == 3"), ("ZYAN_ARRAY_LENGTH", 'ZYAN_ARRAY_LENGTH("abc") == 4'))]
USES += [("H01", "ZYAN_STRING_TO_VIEW", "ZyanUSize use_to_view(ZyanString* s) { return ZYAN_STRING_TO_VIEW(zc ? s : s + 1)->string.vector.size; }"),
         ("H01", "ZYAN_VECTOR_GET", "ZyanU8 use_get(ZyanVector* v) { return ZYAN_VECTOR_GET(ZyanString, zc ? v : v + 1, 0).flags; }"),
         ("H01", "ZYAN_LIST_GET", "ZyanU8 use_node(ZyanListNode* n) { return ZYAN_LIST_GET(ZyanString, zc ? n : n->next).flags; }")]
USES_HEAD = "#include <Zycore/List.h>\n#include <Zycore/String.h>\n#include <Zycore/Vector.h>\n#include <Zycore/Atomic.h>\n#include <Zycore/Defines.h>\n#include <Zycore/Status.h>\n#include <Zycore/Zycore.h>\nZyanVoidPointer zp; ZyanU32 z32; ZyanU64 z64; int zc;\n"


def expressions(w, prop):
    if w.unroll:
        return
    uses = [u for u in USES if u[0] == prop]
    text = USES_HEAD + "".join(u[2] + "\n" for u in uses)
    first = USES_HEAD.count("\n") + 1
    for lang, std in LANGS:
        for lc, d in LIBC:
            r = front(text, lang, ["-fsyntax-only"] + std + d)
            bad = {}
            for l in r.stderr.split("\n"):
                m = re.match(r"<stdin>:(\d+):.*error: ", l)
                if m and int(m.group(1)) >= first:
                    bad.setdefault(uses[int(m.group(1)) - first][1], l)
            for mac in sorted({u[1] for u in uses}):
                ob(w, (prop,), mac, "%s, %s" % (std[0][5:], lc), "the macro can be used like a function call or constant", "violated" if mac in bad else "ok", bad.get(mac, ""))


def declared(text, lang, flags):
    r = front(text, lang, ["-fsyntax-only", "-Xclang", "-ast-dump=json"] + flags)
    if r.returncode:
        return None
    out = {}

    def walk(n):
        for x in n.get("inner", ()):
            if x["kind"] in ("LinkageSpecDecl", "NamespaceDecl"):
                walk(x)
            elif x["kind"] == "FunctionDecl" and re.match(r"zyan|zycore", x["name"], re.I):
                body = any(c["kind"] == "CompoundStmt" for c in x.get("inner", ()))
                o = out.setdefault(x["name"], {"body": False, "static": False, "mangled": x.get("mangledName", x["name"]), "type": x["type"].get("desugaredQualType", x["type"]["qualType"])})
                o["body"] |= body
                o["static"] |= x.get("storageClass") == "static"
    walk(json.loads(r.stdout))
    return out


def interface(w):
    if w.unroll:
        return
    text = "".join("#include <%s>\n" % h for h in headers())
    P = ("X01",)
    for (lc, d), config in zip(LIBC, ("debug", "nolibc")):
        m = w.m if config == w.config else build.build_module(config)
        defs = {f.name for f in m.functions.values() if not f.decl and f.linkage == 0}
        c = declared(text, "c", ["-std=gnu99"] + d)
        cxx = declared(text, "c++", ["-std=gnu++17"] + d)
        if not c:
            ob(w, P, "all headers", lc, "the headers can be used together", "violated", "they do not compile together")
            continue
        api = {n: x for n, x in c.items() if not x["body"]}
        w.funcs |= set(c)
        for n, x in sorted(api.items()):
            ok = n in defs or n in m.functions and not m.functions[n].decl
            ob(w, P, n, lc, "the declared function is part of the library", "ok" if ok and n in defs else "violated",
               "" if n in defs else ("it has no external linkage" if ok else "it is not defined anywhere"))
        for n, x in sorted(c.items()):
            if x["body"]:
                ob(w, P, n, lc, "functions defined in headers are local to the including file", "ok" if x["static"] else "violated")
        if cxx is None:
            ob(w, P, "all headers", lc + ", C++", "the headers can be used together", "violated", "they do not compile together")
            continue
        for n, x in sorted(c.items()):
            y = cxx.get(n)
            ob(w, P, n, lc + ", C++", "declared for C++ too", "ok" if y else "violated")
            if y and not x["body"]:
                ob(w, P, n, lc + ", C++", "C++ programs link to the C function", "ok" if y["mangled"] in (n, "_" + n) else "violated",
                   "" if y["mangled"] == n else "C++ looks for the symbol " + y["mangled"])
    # both languages and both configurations agree on the layout of what they share
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "layout.c")
    facts = {}
    txt = open(src).read()
    for (lc, d) in LIBC:
        for lang, std in LANGS:
            facts[(lc, std[0][5:])] = layout(txt, lang, std + d)
    base = facts[(LIBC[0][0], LANGS[0][1][0][5:])]
    if base is None:
        return
    for k, v in facts.items():
        if v is None:
            continue
        diff = sorted(n for n in base if n in v and base[n] != v[n])
        ob(w, P, "structures", "%s, %s" % (k[1], k[0]), "layouts and constants are those of the library", "violated" if diff else "ok",
           ", ".join("%s is %s instead of %s" % (n, v[n], base[n]) for n in diff[:3]))


def layout(txt, lang, flags):
    from .llvmc import Module
    if lang == "c++":
        txt = txt.replace("const unsigned long long", 'extern "C" const unsigned long long')

    def facts(text):
        with tempfile.TemporaryDirectory(prefix="zsa") as td:
            p, out = os.path.join(td, "l.c"), os.path.join(td, "l.bc")
            open(p, "w").write(text)
            r = subprocess.run(["clang", "-O0", "-x", lang, "-emit-llvm", "-c", p, "-o", out, "-Iinclude", "-DZYCORE_STATIC_BUILD", "-w"] + flags, cwd=build.REPO,
                               capture_output=True, text=True)
            if r.returncode:
                return None
            return {g.name: g.init.v for g in Module(out).globals.values() if isinstance(g.init, CInt)}
    v = facts(txt)
    if v is not None:
        return v
    # not everything exists here
    ls = txt.split("\n")
    head = "\n".join(l for l in ls if l.startswith("#")) + "\n"
    v = {}
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(lambda l: facts(head + l), [l for l in ls if l.strip() and not l.startswith(("#", "/"))]):
            v.update(x or {})
    return v or None


def tasks(prop=None):
    T = []
    if prop in (None, "G01"):
        T += [(state, c) for c in ("debug", "ndebug", "nolibc", "inline", "libc")]
    if prop in (None, TERM):
        T += [(callgraph,)]
    if prop in (None, "N01"):
        T += [(freestanding,)]
    if prop in (None, "X01"):
        T += [(compiles,), (interface,)]
    T += [(expressions, p) for p in ("C02", "C03", "H01", "K01") if prop in (None, p)]
    return T
