"""Contract of the argument parser.

The vector operations and the C library's string functions are replaced by their contracts (V01-V07, the C standard).
Prove: the loop over the tokens is summarised and each kind of iteration is compared with what the parser's grammar
says about one token.  Refute: token and name lengths are fixed, and complete parses are compared with a reference."""
from .world import *
from .interp import W as Wr, ATOMS
from .contracts_string import instantiate
from .models import m_strlen, m_cmp

CONFIG = "debug"
SERVES = ["A01", "A02"]
USE, RES = ("A01",), ("A02",)
VS = 1 << 60
MAXN = 1 << 20
DEF, ARG = None, None


def decomp(o):
    """offset = VS * index + displacement"""
    i, d = {}, {}
    for m, co in o.t.items():
        q = (co + VS // 2) // VS
        if q:
            i[m] = q
        if co - q * VS:
            d[m] = co - q * VS
    return P(i), P(d)


class World_:
    pass


def strings(c, name, count, lens=None, text=None):
    """count strings of any content; string i begins at offset i * VS"""
    r = c.region(name, None, "array", kind="strings")
    r.stride = VS
    r.readonly = True

    def length(i):
        if lens is not None and i.const() is not None and 0 <= i.const() < len(lens):
            return K(lens[i.const()])
        return V(term("len", (name, i), 0, MAXN))
    r.length = length

    def access(I, st, o, ln, inst, what):
        i, d = decomp(o)
        for goal, msg in ((i, "before the first string"), (count - 1 - i, "behind the last string"), (d, "before the string"),
                          (length(i) + 1 - d - ln, "behind the terminating null character")):
            if not st.entails(goal):
                I.issue("oob", "%s %s of %s" % (what, msg, name), st, inst, goal)
                st = st.assume(goal)
                if st is None:
                    return []
        return [st]
    r.access = access

    def policy(I, st, r, o, size, isptr):
        if size != 1 or isptr:
            raise Imprecise("wide access to a string")
        i, d = decomp(o)
        if text is not None and i.const() is not None and d.const() is not None and 0 <= i.const() < len(text):
            x = (text[i.const()] + b"\0")[d.const()]
            if x != 63:        # a question mark stands for any character
                return K(x)
        out = []
        end, ins = st.split_eq(length(i) - d)
        if end:
            out.append((end, ZERO))
        if ins:
            v = V(I.init_atom(ins, r, o, 1))
            ins = ins.assume(v - 1)
            if ins:
                out.append((ins, v))
        return out
    r.policy = policy
    return r


def setup(w, fn, name, args=True, token=True, shape=None, text=None):
    """shape: lengths of tokens and names, whether allocations fail; text: (tokens, names, (boolean, required) of each)"""
    A = World_()
    A.w = w
    A.text = text
    A.failures = shape is None or shape[2]
    c = A.c = Case(w, fn, name, RES, stubs=stubs(A), models={"strlen": strlen(A), "strcmp": compare(A, "strcmp"), "memcmp": memcmp(A), "strncmp": compare(A, "strncmp")})
    lay = w.lay
    global DEF, ARG
    DEF, ARG = lay.size("ZyanArgParseDefinition"), lay.size("ZyanArgParseArg")
    A.esize = lay.size("ZyanArgParseArg")
    A.shape = shape
    A.args = args
    A.argc, A.lo, A.hi = c.sym("argc", 0, MAXN) if shape is None else K(len(shape[0]) + 1), c.sym("min_unnamed_args"), c.sym("max_unnamed_args")
    A.D = c.sym("definitions", 0, MAXN) if shape is None else K(len(shape[1]))
    A.tok = strings(c, "argv", A.argc, shape and (1,) + tuple(shape[0]), text and (b"p",) + tuple(text[0]))
    A.nam = strings(c, "name", A.D, shape and shape[1], text and text[1])
    A.nam.nullat = (A.D * VS,)
    av = A.av = c.region("argv[]", A.argc * 8)
    av.readonly = True

    def argv(I, st, r, o, size, isptr):
        if size != 8:
            raise Imprecise("part of an argv entry read")
        i = o.t and P({m: co // 8 for m, co in o.t.items()}) or ZERO
        if i * 8 != o:
            raise Imprecise("unaligned argv read")
        st = st.fork()
        I.emit(st, "argv", "read", [i], None, None)
        return [(st, Ptr(A.tok, i * VS))]
    av.policy = argv
    df = A.df = c.region("args[]", (A.D + 1) * DEF)
    df.readonly = True
    df.nullat = (K(-DEF),)

    def defs(I, st, r, o, size, isptr):
        i = {m: co // DEF for m, co in o.t.items()}
        k = o - P(i) * DEF
        i = P({m: q for m, q in i.items() if q})
        k = k.const()
        if k == lay.off("ZyanArgParseDefinition", "name") and size == 8:
            return Ptr(A.nam, i * VS)
        if k in (lay.off("ZyanArgParseDefinition", "boolean"), lay.off("ZyanArgParseDefinition", "required")) and size == 1:
            q = i.const()
            if text is not None and q is not None and q < len(text[2]) and text[2][q] is not None:
                return [(st, K(int(text[2][q][k == lay.off("ZyanArgParseDefinition", "required")])))]
            return None
        raise Imprecise("read of a definition at %r" % o)
    df.policy = defs
    cfg = A.cfg = c.struct("ZyanArgParseConfig", "cfg")
    cfg.readonly = True
    for f, v in (("argv", Ptr(av)), ("argc", A.argc), ("min_unnamed_args", A.lo), ("max_unnamed_args", A.hi), ("args", Ptr(df) if args else NULLP)):
        c.set(cfg, "ZyanArgParseConfig", f, v)
    A.parsed = c.region("parsed", K(lay.size("ZyanVector")), "cells")

    def vecfields(I, st, r, o, size, isptr):
        if o.const() != lay.off("ZyanVector", "size") or size != 8:
            raise Imprecise("representation of %s read" % r.name)
        if st.getcell(A.G, 0)[1].const() != 1:
            I.issue("typestate", "the size of a vector is read that is not live", st, None)
        return [(st, A.count(st))]
    A.parsed.policy = vecfields
    A.alloc = c.region("allocator", K(lay.size("ZyanAllocator")), "cells")
    A.alloc.policy = opaque
    A.err = c.out("error_token") if token else None
    A.G = c.region("ghost", K(16), "cells")
    c.st.setcell(A.G, 0, 8, ZERO)      # 0: not initialised, 1: live, 2: destroyed
    return A


def opaque(I, st, r, o, size, isptr):
    raise Imprecise("representation of %s read" % r.name)


# ---------------------------------------------------------------- contracts of the callees
def strlen(A):
    def m(I, st, inst, a):
        if isinstance(a[0], Ptr) and a[0].r in (A.tok, A.nam):
            out = []
            for t, r, o in I.addr(st, a[0], K(1), inst, False, "strlen"):
                i, d = decomp(o)
                out.append((t, r.length(i) - d))
            return out
        return m_strlen(I, st, inst, a)
    return m


def bytewise(A, I, st, inst, a, n, stop, name):
    """comparison of at most n bytes (of strings: up to the terminator)"""
    out = []
    live = [st]
    k = 0
    while live:
        nx = []
        for t in live:
            if n is not None and k == n:
                out.append((t, ZERO))
                continue
            for u, r, o in I.addr(t, Ptr(a[0].r, a[0].o + k), K(1), inst, False, name):
                for u, r2, o2 in I.addr(u, Ptr(a[1].r, a[1].o + k), K(1), inst, False, name):
                    for v, x in I.read(u, r, o, 1, False):
                        for z, y in I.read(v, r2, o2, 1, False):
                            eq, ne = z.split_eq(x - y)
                            if eq:
                                (out.append((eq, ZERO)) if stop and eq.entails_eq(x) else nx.append(eq))
                            if ne:
                                out += [(lt, val) for lt, val in zip(ne.split(x - y), (K(1), K((1 << 32) - 1))) if lt]
        live = nx
        k += 1
        if k > (1024 if A.text else 16):
            raise Imprecise("comparison of unknown length")
    return out


def compare(A, name):
    def m(I, st, inst, a):
        if A.shape is not None and all(isinstance(x, Ptr) for x in a[:2]):
            n = I.num(st, a[2], inst).const() if name == "strncmp" else None
            if name == "strcmp" or n is not None:
                return bytewise(A, I, st, inst, a, n, True, name)
        if name == "strcmp" and all(isinstance(x, Ptr) and x.r.kind == "strings" for x in a[:2]):
            out = []
            for t, r, o in I.addr(st, a[0], K(1), inst, False, name):
                for u, r2, o2 in I.addr(t, a[1], K(1), inst, False, name):
                    x, y = ((r, o), (r2, o2))
                    if r.id > r2.id:
                        x, y = y, x
                    v = V(term("strcmp", x + y, 0, (1 << 32) - 1))
                    out.append((u, v))
            return out
        return [(st, I.fresh(name, 0, (1 << 32) - 1, imprecise=True))]
    return m


def memcmp(A):
    def m(I, st, inst, a):
        n = I.num(st, a[2], inst)
        if n.const() is None or n.const() > (1024 if A.text else 4) or not all(isinstance(x, Ptr) for x in a[:2]):
            return [(st, I.fresh("memcmp", 0, (1 << 32) - 1, imprecise=True))]
        return bytewise(A, I, st, inst, a, n.const(), False, "memcmp")
    return m


def vec_use(A, I, st, inst, a, name):
    """the vector must be live"""
    g = st.getcell(A.G, 0)[1].const()
    I.site("typestate", inst, "%s is given a live vector" % name)
    ok = isinstance(a[0], Ptr) and a[0].r is A.parsed and a[0].o.const() == 0
    if not ok:
        raise Imprecise("vector other than the result used")
    if g != 1:
        I.issue("typestate", "%s on a vector that is %s" % (name, "not initialised" if g == 0 else "destroyed"), st, inst)
        return False
    return True


def fail(I, st, name, inst, a):
    e = I.fresh(name + "_error", 1 << 31, (1 << 32) - 1)
    f = st.fork()
    I.emit(f, "vec", name, a, e, inst)
    return (f, e)


def stubs(A):
    def init(I, st, inst, a):
        g = st.getcell(A.G, 0)[1].const()
        if not (isinstance(a[0], Ptr) and a[0].r is A.parsed):
            raise Imprecise("vector other than the result initialised")
        if g == 1:
            I.issue("typestate", "a live vector is initialised again", st, inst)
        out = [fail(I, st, "init", inst, a)] if A.failures else []
        t = st.fork()
        t.setcell(A.G, 0, 8, K(1))
        I.emit(t, "vec", "init", a, ZERO, inst)
        return out + [(t, K(A.w.ST["SUCCESS"]))]

    def added(name, place):
        def m(I, st, inst, a):
            if not vec_use(A, I, st, inst, a, name):
                return []
            out = [fail(I, st, "emplace", inst, a)] if A.failures else []
            t = st.fork()
            I.nfresh += 1
            e = Region("element#%d" % I.nfresh, K(A.esize), mode="cells")
            e.init_content = "undef"
            for s in place(I, t, a, e, inst):
                s = s.fork()
                # earlier elements may have moved
                s.freed = s.freed | {x.x.id for x in s.events() if x.kind == "vec" and x.name == "emplace" and x.x is not None}
                I.emit(s, "vec", "emplace", a, ZERO, inst, x=e)
                out.append((s, K(A.w.ST["SUCCESS"])))
            return out
        return m
    emplace = added("ZyanVectorEmplace", lambda I, t, a, e, inst: I.store(t, a[1], Ptr(e), 8, inst))
    push = added("ZyanVectorPushBack", lambda I, t, a, e, inst: I.memcpy(t, Ptr(e), a[1], K(A.esize), inst, False))

    def size(I, st, inst, a):
        if not vec_use(A, I, st, inst, a, "ZyanVectorGetSize"):
            return []
        n = A.count(st)
        return [(s, K(A.w.ST["SUCCESS"])) for s in I.store(st, a[1], n, 8, inst)]

    def destroy(I, st, inst, a):
        if not vec_use(A, I, st, inst, a, "ZyanVectorDestroy"):
            return []
        t = st.fork()
        t.setcell(A.G, 0, 8, K(2))
        I.emit(t, "vec", "destroy", a, ZERO, inst)
        f = t.fork()
        e = I.fresh("destroy_error", 1 << 31, (1 << 32) - 1)
        I.emit(f, "vec", "destroyfail", a, e, inst)
        return [(t, K(A.w.ST["SUCCESS"]))] + ([(f, e)] if A.failures else [])

    def pointer(name):
        def m(I, st, inst, a):
            if not vec_use(A, I, st, inst, a, name):
                return []
            out = []
            for t, p in A.element(I, st, I.num(st, a[1], inst)):
                out += [(s, K(A.w.ST["SUCCESS"])) for s in I.store(t, a[2], p, 8, inst)] if p is not NULLP else [(t, K(A.w.ST["OUT_OF_RANGE"]))]
            return out
        return m

    def get(name):
        def m(I, st, inst, a):
            return A.element(I, st, I.num(st, a[1], inst)) if vec_use(A, I, st, inst, a, name) else []
        return m
    return {"ZyanVectorInitEx": init, "ZyanVectorEmplace": emplace, "ZyanVectorPushBack": push, "ZyanVectorGetSize": size, "ZyanVectorDestroy": destroy,
            "ZyanVectorGetPointer": pointer("ZyanVectorGetPointer"), "ZyanVectorGetPointerMutable": pointer("ZyanVectorGetPointerMutable"),
            "ZyanVectorGet": get("ZyanVectorGet"), "ZyanVectorGetMutable": get("ZyanVectorGetMutable")}


# ---------------------------------------------------------------- proving
def prove(w, fn, args, token):
    A = setup(w, fn, "%s%s" % ("with definitions" if args else "no definitions", "" if token else ", error token not wanted"), args, token)
    c = A.c
    A.n = c.sym("parsed.size", 0, 1 << 40)
    def latest(st):
        """the element added last on this path, if it is the vector's last one"""
        for e in reversed(st.events()):
            if isinstance(e, LoopEv) and emplaces(e):
                return None
            if not isinstance(e, LoopEv) and e.kind == "vec" and e.name == "emplace" and e.x is not None:
                return e.x

    def count(st):
        e = latest(st)
        return A.n if e is None else V(term("size with", (K(e.id),), 1, 1 << 40))
    A.count = count
    lay = w.lay

    def element_(I, st, i):
        e = latest(st)
        n = A.count(st)
        if e is not None and st.entails_eq(n - 1 - i):
            return [(st, Ptr(e))]
        out = []
        ok, bad = st.split(n - 1 - i)
        if ok and e is not None:
            raise Imprecise("element other than the last while elements are added")
        if ok:
            out.append((ok, Ptr(A.elems, i * ARG)))
        if bad:
            out.append((bad, NULLP))
        return out
    A.element = element_
    el = A.elems = c.region("parsed elements", A.n * ARG)
    el.readonly = True

    def elem(I, st, r, o, size, isptr):
        i = {m: co // ARG for m, co in o.t.items()}
        k = (o - P(i) * ARG).const()
        i = P({m: q for m, q in i.items() if q})
        if k == lay.off("ZyanArgParseArg", "def") and size == 8:
            d = V(term("def", (i,), -1, MAXN))
            t = st.assume(A.D - 1 - d)
            return [(t, Ptr(A.df, d * DEF))] if t else []
        return None
    el.policy = elem
    c.I.on_loop = lambda s, outs: hook(A, s, outs)
    A.run = lambda: c.run(Ptr(A.cfg), Ptr(A.parsed), Ptr(A.err) if token else NULLP, Ptr(A.alloc))
    return A



# ---- the grammar of one token
def chars(A, st, r, i, *pos):
    """[(state, bytes of string i at the positions)]"""
    out = [(st, ())]
    for p in pos:
        out = [(u, vs + (v,)) for t, vs in out for u, v in A.c.I.read(t, r, i * VS + p, 1, False)]
    return out


def classify(A, st, i, acc):
    """[(state, kind of token i)]; acc: option tokens are still accepted, as a value that is zero then"""
    out = []
    L = A.tok.length(i)
    yes, no = st.split_eq(acc) if acc is not None else (st, None)
    if no:
        out.append((no, "unnamed"))
    if not yes:
        return out
    long_, short = yes.split(L - 2)
    if short:
        out.append((short, "unnamed"))
    for t, (a, b) in chars(A, long_, A.tok, i, K(0), K(1)) if long_ else ():
        d, n = t.split_eq(a - 45)
        if n:
            out.append((n, "unnamed"))
        d, n = d.split_eq(b - 45) if d else (None, None)
        if n:
            out.append((n, "short"))
        e, n = d.split_eq(L - 2) if d else (None, None)
        if e:
            out.append((e, "end"))
        if n:
            out.append((n, "long"))
    return [(t, k) for t, k in out if not infeasible(t.cons)]


def matches(A, st, d, i, pos):
    """states in which definition d is meant by token i (its character at pos, if given)"""
    if pos is None:
        v = V(term("strcmp", sides(A, d, i), 0, (1 << 32) - 1))
        t = st.assume_eq(v)
        return [t] if t else []
    t = st.assume_eq(A.nam.length(d) - 2)
    out = []
    for u, (a, b) in chars(A, t, A.nam, d, K(0), K(1)) if t else ():
        for v, (x,) in chars(A, u, A.tok, i, pos):
            v = v.assume_eq(a - 45)
            v = v and v.assume_eq(b - x)
            if v and not infeasible(v.cons):
                out.append(v)
    return out


def sides(A, d, i):
    x, y = (A.nam, d * VS), (A.tok, i * VS)
    return x + y if x[0].id < y[0].id else y + x


def bad_def(A, st, d, want):
    """states in which the name of definition d has (want) / has not a valid form"""
    out = []
    L = A.nam.length(d)
    a, b = st.split(L - 2)
    if b and want:
        out.append(b)
    for t, (x, y) in chars(A, a, A.nam, d, K(0), K(1)) if a else ():
        e, n = t.split_eq(x - 45)
        if n and want:
            out.append(n)
        e, n = e.split_eq(y - 45) if e else (None, None)
        if e and not want:
            out.append(e)
        e, n = n.split_eq(L - 2) if n else (None, None)
        if e and not want:
            out.append(e)
        if n and want:
            out.append(n)
    return [t for t in out if not infeasible(t.cons)]


def at(st, le, q):
    """what iteration q of the loop established: [(state, path)]"""
    out = []
    mp = {le.j.id: q}
    for p in le.paths:
        v = st
        for c in p.conds:
            v = v and v.assume(subst(c, mp))
        for d in p.diseq:
            v = v and v.assume_ne(subst(d, mp))
        if v and not infeasible(v.cons):
            out.append((v, p))
    return out


def none_before(A, st, evs, d, i, pos):
    """no definition before d is meant by the token"""
    if st.entails(-d):
        return True
    q = A.c.sym("q", 0, MAXN)
    t = st.assume(d - 1 - q)
    if t is None:
        return True
    for le in evs:
        if isinstance(le, LoopEv) and (st.entails_eq(le.count - d)):
            if not any(matches(A, u, q, i, pos) for u, p in at(t, le, q)):
                return True
    return False


def value_is(A, st, e, i, pos, n):
    """the element's value is the text of token i from pos on"""
    lay = A.w.lay
    base = lay.off("ZyanArgParseArg", "value") + lay.off("ZyanStringView", "string") + lay.off("ZyanString", "vector")
    d, s, h = (content(A, st, e, o, n, p) for o, n, p in ((base + lay.off("ZyanVector", "data"), 8, True), (base + lay.off("ZyanVector", "size"), 8, False),
                                                         (lay.off("ZyanArgParseArg", "has_value"), 1, False)))
    return bool(d and s and h and isinstance(d[1], Ptr) and d[1].r is A.tok and st.entails_eq(d[1].o - i * VS - pos)
                and isinstance(s[1], P) and st.entails_eq(s[1] - (n - pos) - 1) and isinstance(h[1], P) and st.entails(h[1] - 1))


def content(A, st, e, off, size, isptr):
    r = A.c.I.read(st, e, K(off), size, isptr)
    return (size, r[0][1]) if len(r) == 1 else None


def element(A, st, e):
    """(definition index or None for an unnamed argument, has_value) of an element; None if not known"""
    lay = A.w.lay
    d, h = content(A, st, e, lay.off("ZyanArgParseArg", "def"), 8, True), content(A, st, e, lay.off("ZyanArgParseArg", "has_value"), 1, False)
    if d is None or h is None or not isinstance(d[1], Ptr) or not isinstance(h[1], P):
        return None
    if d[1].r is NULLR:
        return (None, h[1])
    if d[1].r is not A.df:
        return None
    q = P({m: co // DEF for m, co in d[1].o.t.items()})
    return (q, h[1]) if q * DEF == d[1].o else None


def field(A, st, d, f):
    return A.c.I.read(st, A.df, d * DEF + A.w.lay.off("ZyanArgParseDefinition", f), 1, False)[0][1]


def emplaces(e):
    return [x for x in ([e] if not isinstance(e, LoopEv) else [y for p in e.paths for y in p.events]) for x in
            (emplaces(x) if isinstance(x, LoopEv) else [x] if x.kind == "vec" and x.name == "emplace" else [])]


def option(A, st, evs, e, i, pos, L, last):
    """the element e of option token i is right.
    -> (reason it is not | None, tokens used, done)"""
    x = element(A, st, e)
    if x is None or x[0] is None:
        return ("the element has no definition", 0, True)
    d, h = x
    if not (st.entails(d) and st.entails(A.D - 1 - d)):
        return ("the definition is none of the given ones", 0, True)
    if not (st.entails_eq(V(term("strcmp", sides(A, d, i), 0, (1 << 32) - 1))) if pos is None else
            not none_match(A, st, d, i, pos)):
        return ("the definition is not the one the token names", 0, True)
    if not none_before(A, st, evs, d, i, pos):
        return ("an earlier definition might be meant", 0, True)
    b = field(A, st, d, "boolean")
    yes, no = st.split_eq(b)
    if yes is None:
        return (None if st.entails_eq(h) else "a boolean argument has a value", 0, False)
    if no is not None:
        return ("whether the argument takes a value was not looked at", 0, True)
    if pos is not None and st.entails(L - pos - 2):
        return (None if value_is(A, st, e, i, pos + 1, L) else "the value is not the rest of the token", 0, True)
    if pos is not None and not st.entails(pos + 1 - L):
        return ("it is open whether the token continues", 0, True)
    ok = st.entails(A.argc - 2 - i) and value_is(A, st, e, i + 1, ZERO, A.tok.length(i + 1))
    return (None if ok else "the value is not the next token", 1, True)


def none_match(A, st, d, i, pos):
    """some state in st in which definition d is not meant"""
    out = []
    x, y = st.split_eq(A.nam.length(d) - 2)
    if y:
        return True
    for u, (a, b) in chars(A, x, A.nam, d, K(0), K(1)):
        for v, (z,) in chars(A, u, A.tok, i, pos):
            if not v.entails_eq(a - 45) or not v.entails_eq(b - z):
                if not infeasible(v.cons):
                    return True
    return False


def iteration(A, st, evs, i, kind, num, ret=None):
    """check one (complete or, with ret, aborted) iteration for token i.
    -> (reason it is wrong | None, tokens used)"""
    L = A.tok.length(i)
    S = A.w.ST
    i0 = i
    fails = [e for e in evs if not isinstance(e, LoopEv) and e.kind == "vec" and e.name == "emplace" and e.x is None]
    elems = [e for e in evs if not isinstance(e, LoopEv) and e.kind == "vec" and e.name == "emplace" and e.x is not None]
    loops = [e for e in evs if isinstance(e, LoopEv) and emplaces(e)]
    if fails:
        if ret is None:
            return ("a failed allocation is ignored", 0)
        if not (isinstance(ret[0], P) and st.entails_eq(ret[0] - fails[0].ret)):
            return ("the error of the failed allocation is not reported", 0)
        # the elements before it are those of the token so far
    status, token = ret if ret else (None, None)

    def failed(name, tok=True):
        if not (isinstance(status, P) and status.const() == S[name]):
            return ("%s expected" % name, 0)
        if tok and A.err is not None and not (isinstance(token, Ptr) and token.r is A.tok and st.entails_eq(token.o - i0 * VS)):
            return ("the error token is not the token", 0)
        return (None, 0)
    if kind == "end":
        return ("an element is added for the end marker", 0) if elems or loops else ("the end marker is an error", 0) if ret else (None, 1)
    if kind == "unnamed":
        if loops:
            return ("several elements for an unnamed argument", 0)
        if st.entails(num + 1 - A.hi - 1) and not fails:
            return failed("TOO_MANY_ARGS") if ret else ("more unnamed arguments than allowed", 0)
        if not st.entails(A.hi - num - 1):
            return ("the number of unnamed arguments is not limited", 0)
        if fails:
            return (None, 0)
        if ret:
            return ("an acceptable unnamed argument is refused", 0)
        if len(elems) != 1:
            return ("%d elements for an unnamed argument" % len(elems), 0)
        x = element(A, st, elems[0].x)
        if x is None or x[0] is not None or not value_is(A, st, elems[0].x, i, ZERO, L):
            return ("the element does not hold the unnamed argument", 0)
        return (None, 1)
    # options
    pos = None if kind == "long" else K(1)
    if kind == "long" and loops:
        return ("several elements for one option", 0)
    used, done = 0, False
    work = [e for e in evs if e in elems or e in loops or e in fails]
    for n, e in enumerate(work):
        if done:
            return ("an element follows the end of the token", 0)
        if e in fails:
            return (None, 0)
        if e in loops:
            # judged by the hook of that loop: one flag per iteration
            if e not in A.flagloops and e.j not in [x.j for x in A.flagloops]:
                return ("the loop over the characters was not recognised", 0)
            if not st.entails_eq(pos - 1):
                return ("the loop over the characters does not begin at the first", 0)
            pos = pos + e.count
            continue
        last = n == len(work) - 1
        el = element(A, st, e.x)
        if last and ret:
            # aborted on this element
            if el is None or el[0] is None:
                if not none_before(A, st, evs, A.D if A.args else ZERO, i, pos):
                    return ("a defined option might be refused", 0)
                return failed("ARG_NOT_UNDERSTOOD")
            if not st.entails_eq(field(A, st, el[0], "boolean")):
                return ("an option without value is refused", 0)
            if pos is not None and not st.entails(pos + 1 - L):
                return ("an option with a value is refused", 0)
            if not st.entails_eq(A.argc - 1 - i):
                return ("an option with a value is refused", 0)
            if not (none_before(A, st, evs, el[0], i, pos)):
                return ("an earlier definition might be meant", 0)
            return failed("ARG_MISSES_VALUE")
        r, u, done = option(A, st, evs, e.x, i, pos, L, last)
        if r:
            return (r, 0)
        used += u
        if pos is None:
            done = True
        else:
            pos = pos + 1
    if ret:
        return ("an acceptable option is refused", 0)
    if kind == "long" and not elems:
        return ("no element for the option", 0)
    if not done and pos is not None and not st.entails_eq(L - pos):
        return ("characters of the token are skipped", 0)
    return (None, 1 + used)


# ---- the loops
def hook(A, s, outs):
    depth = len(s.I.loopk)
    sts = [(o[0], o[2] if o[0] == "back" else o[3] if o[0] == "exit" else o[1], o) for o in outs]
    direct = any(e.kind == "argv" for _, st, _ in sts for e in st.events())
    if depth == 0 and direct:
        tokens(A, s, sts)
    elif depth == 1 and any(k == "back" and emplaces_direct(st) for k, st, _ in sts):
        flags(A, s, sts)


def emplaces_direct(st):
    return [e for e in st.events() if e.kind == "vec" and e.name == "emplace"]


def flags(A, s, sts):
    """the loop over the characters of a token: every completed iteration adds one flag"""
    c = A.c
    A.flagloops.append(Bag(s.jbase))
    i = A.current(s)
    if i is None:
        return c.ob(USE, "every flag of a token adds one element", "undecided", "token not known")
    pos = V(s.k) + 1
    L = A.tok.length(i)
    for kind, st, o in sts:
        if kind != "back":
            continue
        em = [e for e in emplaces_direct(st) if e.x is not None]
        r = "%d elements" % len(em) if len(em) != 1 or len(emplaces_direct(st)) != 1 else None
        if r is None:
            r, used, done = option(A, st, st.events(), em[0].x, i, pos, L, False)
            if r is None and done:
                r = "scanning continues behind a value"
        c.ob(USE, "every flag of a token adds one element", "ok" if r is None else "undecided", r or "")


class Bag:
    def __init__(s, j):
        s.j = j


def tokens(A, s, sts):
    """the loop over the tokens"""
    c = A.c
    what = "each token has the effect the grammar gives it"
    first = [next((e for e in st.events() if e.kind == "argv"), None) for _, st, _ in sts]
    idx = next((e.args[0] for e in first if e), None)
    A.idx = idx
    A.tokloop = s.jbase

    def shifted(p, o):
        mp = {s.k.id: V(s.k) + 1}
        for lv in s.lvs():
            g = s.generic(lv)
            a = g.single() if isinstance(g, P) else None
            if a is not None:
                v = s.backval(lv, o)
                if not isinstance(v, P):
                    return None
                mp[a.id] = v
        return subst_top(p, mp)

    def initial(p):
        mp = {s.k.id: ZERO}
        for lv in s.lvs():
            g = s.generic(lv)
            a = g.single() if isinstance(g, P) else None
            if a is not None and isinstance(s.init[lv], P):
                mp[a.id] = s.init[lv]
        return subst_top(p, mp)
    ok = initial(idx).const() == 1
    c.ob(USE, "the first token is the one behind the program name", "ok" if ok else "undecided", "" if ok else repr(initial(idx)))
    backs = [(st, o) for k, st, o in sts if k == "back"]
    scal = [s.generic(lv) for lv in s.lvs() if isinstance(s.generic(lv), P) and s.generic(lv).single() is not None and isinstance(s.init[lv], P)
            and s.init[lv].const() is not None]
    accs, nums = [None], []
    for g in scal:
        vals = [shifted(g, o) for _, o in backs]
        if all(v is not None and (v == g or v.const() is not None) for v in vals) and any(v.const() is not None for v in vals):
            accs.append(g)
        if all(v is not None and (v == g or (v - g).const() == 1) for v in vals) and any(v == g for v in vals) and any(v != g for v in vals):
            nums.append(g)
    best = None
    for acc in reversed(accs):
        for num in nums or [None]:
            bad = []
            n = 0
            if num is None or acc is None:
                bad.append("no variable %s" % ("counts the unnamed arguments" if num is None else "tells whether options are still accepted"))
            elif initial(num).const() != 0:
                bad.append("the count of unnamed arguments does not begin with zero")
            a0 = None if acc is None else acc - initial(acc)
            for st, o in backs if not bad else ():
                evs = st.events()
                for t, kind in classify(A, st, idx, a0):
                    n += 1
                    r, used = iteration(A, t, evs, idx, kind, num)
                    if r is None:
                        nx, na, nn = shifted(idx, o), shifted(acc, o), shifted(num, o)
                        if not t.entails_eq(nx - idx - used):
                            r = "the next token is not the one behind"
                        elif kind == "end" and not (t.entails(na - initial(acc) - 1) or t.entails(initial(acc) - na - 1)):
                            r = "options are still accepted after the end marker"
                        elif kind != "end" and not t.entails_eq(na - acc):
                            r = "acceptance of options changes"
                        elif not t.entails_eq(nn - num - (1 if kind == "unnamed" else 0)):
                            r = "the count of unnamed arguments is wrong"
                    if r:
                        bad.append("%s token: %s" % (kind, r))
            if best is None or len(bad) < len(best[0]):
                best = (bad, acc, num, n, a0)
    bad, A.acc, A.num, n, A.a0 = best
    for b in sorted(set(bad)):
        c.ob(USE, what, "undecided", b)
    for _ in range(n - len(bad)):
        c.ob(USE, what, "ok")


# ---------------------------------------------------------------- refuting
SHAPES = [
    # token lengths, name lengths
    ((), ()), ((), (2,)), ((), (3,)), ((), (0,)), ((), (1,)), ((), (2, 1)), ((), (2, 4)),
    ((1,), (2,)), ((2,), (2,)), ((0,), (2,)), ((2,), (2, 2)), ((3,), (3,)), ((3,), (2, 3)), ((3,), (2,)), ((3,), (2, 2)),
    ((1, 1), (2,)), ((2, 1), (2,)), ((2, 2), (2,)), ((2, 3), (3,)), ((3, 1), (3,)), ((3, 2), (3,)), ((3, 2), (2,)), ((4, 1), (2,)), ((4,), (4,)), ((4,), (3,)),
    ((3, 1), (2, 2)), ((4,), (2, 2)), ((3, 3), (3,)), ((1, 2), (2,)), ((4, 1), (3, 4)), ((3, 3), (3, 3)), ((2, 2, 1), (2,)), ((1, 2, 1), (2,)), ((2, 1, 1), (2, 2)),
    ((2, 2, 3), (2, 3)), ((3, 2, 1), (2,)), ((3, 1, 2), (3, 2)), ((1, 1, 1), ()), ((2, 3, 2), (3,)), ((5, 1), (2, 2)),
    ((2,), (2, 2, 2)), ((3, 3), (2, 3)), ((4, 4), (3, 4)), ((1, 1, 1, 1), (2,)), ((2, 1, 2, 1), (2,)), ((3, 3, 1), (3, 2)), ((5,), (5, 5)), ((4,), (3, 5)),
    ((2, 0, 2), (2,)), ((0, 2), (2,)), ((3, 0, 3), (3,)),     ((2, 2), (2, 2)), ((2, 2, 2), (2,)), ((3,), (2, 2, 2)), ((2, 1, 3, 1), (3,)), ((6,), (2,)), ((3, 3, 3), (3, 3)), ((2, 3, 1), (2, 3)),
]


def reference(A, st):
    """[(state, status name or value, error token (region, index) or None, elements)] of the grammar for fixed lengths.
    elements: (definition index or None, value (token, from) or None); results of allocations are taken from the path"""
    S = A.w.ST
    m, n = len(A.shape[1]), len(A.shape[0]) + 1
    evs = st.events()
    init = [e for e in evs if e.kind == "vec" and e.name == "init"]
    emp = [e for e in evs if e.kind == "vec" and e.name == "emplace"]
    out = []

    def done(t, status, token=None, els=(), checktok=True):
        out.append((t, status, token, els, checktok))

    def after_defs(t):
        if init and init[0].ret.const() != 0:
            return done(t, init[0].ret, None, (), False)
        parse(t, 1, True, 0, ())

    def defs(t, d):
        if d == m:
            return after_defs(t)
        for u in bad_def(A, t, K(d), True):
            done(u, "INVALID_ARGUMENT", None, None, False)
        for u in bad_def(A, t, K(d), False):
            defs(u, d + 1)

    def emplaced(t, els, go):
        k = len(els)
        if k < len(emp) and emp[k].x is None:
            return done(t, emp[k].ret, None, els, False)
        go(t)

    def parse(t, i, acc, num, els):
        if i >= n:
            few, enough = t.split(A.lo - num - 1)
            if few:
                done(few, "TOO_FEW_ARGS", None, els, False)
            if enough:
                required(enough, 0, els)
            return
        L = A.shape[0][i - 1]
        for u, kind in classify(A, t, K(i), ZERO if acc else K(1)):
            if kind == "end":
                parse(u, i + 1, False, num, els)
            elif kind == "unnamed":
                many, fine = u.split(num + 1 - A.hi - 1)
                if many:
                    done(many, "TOO_MANY_ARGS", (A.tok, i), els)
                if fine:
                    emplaced(fine, els, lambda v: parse(v, i + 1, acc, num + 1, els + ((None, (i, 0)),)))
            elif kind == "long":
                emplaced(u, els, lambda v: search(v, i, None, 0, acc, num, els))
            else:
                emplaced(u, els, lambda v: search(v, i, 1, 0, acc, num, els))

    def search(t, i, pos, d, acc, num, els):
        if d == m:
            return done(t, "ARG_NOT_UNDERSTOOD", (A.tok, i), els)
        for u, hit in match(t, d, i, pos):
            if hit:
                found(u, i, pos, d, acc, num, els)
            else:
                search(u, i, pos, d + 1, acc, num, els)

    def match(t, d, i, pos):
        L, N = A.shape[0][i - 1], A.shape[1][d]
        pairs = [(k, k) for k in range(N)] if pos is None else [(1, pos)]
        if pos is None and L != N or pos is not None and N != 2:
            return [(t, False)]
        res = []
        live = [t]
        for a, b in pairs:
            nx = []
            for u in live:
                for v, (x,) in chars(A, u, A.nam, K(d), K(a)):
                    for z, (y,) in chars(A, v, A.tok, K(i), K(b)):
                        eq, ne = z.split_eq(x - y)
                        if eq:
                            nx.append(eq)
                        if ne:
                            res.append((ne, False))
            live = nx
        return res + [(u, True) for u in live]

    def found(t, i, pos, d, acc, num, els):
        L = A.shape[0][i - 1]
        novalue, value = t.split_eq(-field(A, t, K(d), "boolean"))
        if value:     # boolean
            e2 = els + ((d, None),)
            if pos is None or pos + 1 == L:
                parse(value, i + 1, acc, num, e2)
            else:
                emplaced(value, e2, lambda v: search(v, i, pos + 1, 0, acc, num, e2))
        if novalue:
            if pos is not None and pos + 1 < L:
                parse(novalue, i + 1, acc, num, els + ((d, (i, pos + 1)),))
            elif i == n - 1:
                done(novalue, "ARG_MISSES_VALUE", (A.tok, i), els)
            else:
                parse(novalue, i + 2, acc, num, els + ((d, (i + 1, 0)),))

    def required(t, d, els):
        if d == m:
            return done(t, "SUCCESS", None, els)
        no, yes = t.split_eq(field(A, t, K(d), "required"))
        if no:
            required(no, d + 1, els)
        if yes:
            if any(x[0] == d for x in els):
                required(yes, d + 1, els)
            else:
                done(yes, "REQUIRED_ARG_MISSING", (A.nam, d), els)
    few, enough = st.split(A.lo - A.hi - 1)
    if few:
        done(few, "INVALID_ARGUMENT", None, None, False)
    if enough:
        defs(enough, 0) if A.args else after_defs(enough)
    return out


def refute(w, args, token, part, parts):
    big = w.unroll > 1
    n = 0
    for k, (toks, names) in enumerate(SHAPES):
        if k % parts != part or big != (len(toks) + len(names) > 3 or sum(toks) > 4):
            continue
        if not args and names not in ((), (2,)):
            continue
        for failures in (False, True):
            if failures and len(toks) > 2:
                continue
            A = setup(w, "ZyanArgParseEx", "%d tokens of length %s, names of length %s" % (len(toks), toks, names if args else "-"), args, token,
                      (toks, names if args else (), failures))
            compare_all(A, token)
            n += 1
    return n


A70, A256 = b"a" * 70, b"a" * 256
OFF = (False, False)
TEXTS = [
    # what only shows with long strings or many of them, as far as it matters: tokens, names ("?" is any character), (boolean, required) if fixed
    ("names that differ behind 70 characters", (b"--" + A70 + b"?", b"--" + A70 + b"?"), (b"--" + A70 + b"?",), ()),
    ("the last of two long names", (b"--" + A70 + b"?",), (b"--" + A70 + b"x", b"--" + A70 + b"?"), ()),
    ("a token that begins with a long name", (b"--" + A70 + b"?",), (b"--" + A70,), ()),
    ("a long name that begins with the token", (b"--" + A70, b"?"), (b"--" + A70 + b"?",), ()),
    ("a name of 258 characters", (b"--" + A256, b"?"), (b"--" + A256,), ()),
    ("a name 256 characters longer than the token", (b"--a?", b"?"), (b"--aa" + A256,), ()),
    ("a token of 257 characters", (b"-" + A256[1:] + b"?", b"?"), (b"-a", b"-?"), ((True, False), None)),
    ("a token of 256 characters with a value inside", (b"-?" + A256[2:], b"?"), (b"-b",), ((False, False),)),
    ("an unnamed token of 258 characters", (A256 + b"??",), (b"-a",), ()),
    ("more unnamed arguments than may be allowed", (b"x",) * 259, (b"-a",), (OFF,), (0, 0, 256, 259)),
    ("fewer unnamed arguments than may be required", (b"x",) * 259, (b"-a",), (OFF,), (257, 261, 300, MAXN)),
    ("an option behind many arguments", (b"x",) * 290 + (b"-a",), (b"-a",), (), (0, 0, 300, MAXN)),
    ("many arguments and an option that is not there", (b"x",) * 260, (b"-b", b"-a"), (), (0, 0, 300, MAXN)),
    ("many definitions", (b"-?", b"--zz"), (b"-b",) * 260 + (b"-a", b"--zz"), (OFF,) * 260),
    ("an option that may be required behind many definitions", (b"-b",), (b"-b",) * 259 + (b"-a",), (OFF,) * 259),
    ("an end marker behind many arguments", (b"x",) * 257 + (b"-?", b"-a"), (b"-a",), (), (0, 0, 300, MAXN)),
]


def boundary(w, part, parts):
    """command lines with many or long words, most of whose characters are fixed"""
    if w.unroll:
        return
    for k, (name, toks, names, flags, *lim) in enumerate(TEXTS):
        if k % parts == part:
            A = setup(w, "ZyanArgParseEx", name, True, True, (tuple(map(len, toks)), tuple(map(len, names)), False), (toks, names, flags))
            for v, a, b in ((A.lo, *lim[0][:2]), (A.hi, *lim[0][2:])) if lim else ():
                A.c.assume(v - a)
                A.c.assume(K(b) - v)
            compare_all(A, True, 600)


def compare_all(A, token, unroll=12):
    w, c = A.w, A.c
    S = w.ST
    c.I.unroll = unroll

    def elems(st):
        return [e.x for e in st.events() if e.kind == "vec" and e.name == "emplace" and e.x is not None]
    A.count = lambda st: K(len(elems(st)))

    def element_(I, st, i):
        i = i.const()
        es = elems(st)
        if i is None:
            raise Imprecise("element position not known")
        if i >= len(es):
            return [(st, NULLP)]
        st = st.fork()
        st.freed = st.freed - {es[i].id}       # its present address is given
        return [(st, Ptr(es[i]))]
    A.element = element_
    c.run(Ptr(A.cfg), Ptr(A.parsed), Ptr(A.err) if token else NULLP, Ptr(A.alloc))
    for ex in c.exits:
        for t, status, tok, els, checktok in reference(A, ex.st):
            if infeasible(t.cons):
                continue
            x = Exit(t, ex.ret)
            evs = t.events()
            live = t.getcell(A.G, 0)[1].const()
            if any(e.kind == "vec" and e.name == "destroyfail" for e in evs):
                continue
            if isinstance(status, str):
                if not c.require(USE, "the outcome is the one of the grammar", x, isinstance(ex.ret, P) and ex.ret.const() == S[status], "%s expected" % status):
                    continue
            else:
                if not c.prove_eq(RES, "a failed allocation is reported", x, ex.ret, status):
                    continue
            ok = status == "SUCCESS"
            inited = any(e.kind == "vec" and e.name == "init" and e.ret.const() == 0 for e in evs)
            c.require(RES, "the vector is live exactly on success and destroyed on failure", x, live == (1 if ok else 2 if inited else 0), "state %s" % live)
            if A.err is not None and checktok:
                tv = c.outval(x, A.err)
                c.require(USE, "the error token is the one the grammar names", x, tv == (Ptr(tok[0], K(tok[1]) * VS) if tok else NULLP), "%r" % (tv,))
            if ok:
                es = elems(t)
                c.require(USE, "one element per parsed argument", x, len(es) == len(els), "%d elements instead of %d" % (len(es), len(els)))
                for k, (e, want) in enumerate(zip(es, els)):
                    got = element(A, t, e)
                    good = got is not None and (got[0] is None) == (want[0] is None) and (want[0] is None or t.entails_eq(got[0] - want[0]))
                    c.require(USE, "each argument has the definition it names", x, good, "argument %d: %r" % (k, got))
                    if good and want[1] is None:
                        c.require(USE, "a boolean argument has no value", x, t.entails_eq(got[1]))
                    elif good:
                        i, pos = want[1]
                        c.require(USE, "each argument has its value", x, value_is(A, t, e, K(i), K(pos), A.tok.length(K(i))), "argument %d" % k)


def total(w, args, token, part=0, parts=1):
    if w.unroll:
        return refute(w, args, token, part, parts)
    A = prove(w, "ZyanArgParseEx", args, token)
    A.flagloops = []
    A.idx = A.tokloop = A.acc = A.num = A.a0 = None

    def current(s):
        # the token whose characters the loop reads
        for e in reversed(s.st0.events()):
            if e.kind == "argv":
                return e.args[0]
        base = s.base
        for e in reversed(A.c.I.outer.events() if getattr(A.c.I, "outer", None) else []):
            if e.kind == "argv":
                return e.args[0]
    A.current = current
    c = A.c
    A.run()
    S = w.ST
    for ex in c.exits:
        judge(A, ex)


def judge(A, ex):
    c, S = A.c, A.w.ST
    evs = ex.st.events()
    st = ex.st
    init = [e for e in evs if e.kind == "vec" and e.name == "init"]
    gone = [e for e in evs if e.kind == "vec" and e.name in ("destroy", "destroyfail")]
    live = st.getcell(A.G, 0)[1].const()
    ok = c.success(ex)
    tok = c.outval(ex, A.err) if A.err is not None else None
    q = c.sym("q", 0, MAXN)

    def ob(props, what, good, why=""):
        return c.ob(props, what, "ok" if good else "undecided", "" if good else why + c.pathinfo(ex))
    if not init:
        ob(RES, "nothing is left behind when the vector was never created", live == 0 and not gone)
        loops = [e for e in evs if isinstance(e, LoopEv)]
        d = loops[-1].count if loops else ZERO
        bad = st.entails(A.lo - A.hi - 1) or (A.args and not bad_def(A, st, d, False) and st.entails(A.D - 1 - d))
        return ob(USE, "a configuration is refused only if it is invalid, as invalid argument", bad and c.isstatus(ex, "INVALID_ARGUMENT"))
    # the configuration was accepted
    loops = evs[:evs.index(init[0])]
    t = st.assume(A.D - 1 - q)
    good = st.entails(A.hi - A.lo) and (not A.args or t is None or any(isinstance(le, LoopEv) and st.entails_eq(le.count - A.D)
                                                            and not any(bad_def(A, u, q, True) for u, p in at(t, le, q)) for le in loops))
    ob(USE, "an invalid configuration is refused", good)
    a = init[0].args
    ob(USE, "the result is a vector of arguments from the given allocator", len(init) == 1 and a[1].const() == ARG and a[3] == NULLP and a[4] == Ptr(A.alloc), repr(a))
    if init[0].ret is not ZERO and init[0].ret.const() != 0:
        ob(RES, "nothing is left behind when the vector was never created", live == 0 and not gone)
        return ob(RES, "the failure to create the vector is reported", isinstance(ex.ret, P) and st.entails_eq(ex.ret - init[0].ret))
    if ok is None:
        return ob(RES, "the outcome is a status", False, repr(ex.ret))
    if ok:
        ob(RES, "the caller receives a live vector", live == 1 and not gone)
        if A.err is not None:
            ob(USE, "no error token on success", tok == NULLP, repr(tok))
    else:
        ob(RES, "the vector is destroyed exactly once on failure", live == 2 and len([e for e in gone if e.name == "destroy"]) == 1)
    if [e for e in gone if e.name == "destroyfail"]:
        return
    # which part of the input decided
    n = max([k for k, e in enumerate(evs) if isinstance(e, LoopEv) and e.j is A.tokloop], default=None)
    if n is None or A.idx is None or A.acc is None or A.num is None:
        return ob(USE, "the outcome is the one of the grammar", False, "the loop over the tokens was not recognised")
    rest = evs[n + 1:]
    if any(e.kind == "argv" for e in rest if not isinstance(e, LoopEv)):
        part = [e for e in rest if not (e.kind == "vec" and e.name in ("destroy", "destroyfail"))]
        if part and ok:
            return ob(USE, "no token is left out", False)
        bad = []
        for t, kind in classify(A, st, A.idx, A.a0):
            r, _ = iteration(A, t, part, A.idx, kind, A.num, (ex.ret, tok))
            if r:
                bad.append("%s token: %s" % (kind, r))
        return ob(USE, "parsing stops at a token only for the reason the grammar gives", not bad, "; ".join(bad))
    ob(USE, "no token is left out", st.entails(A.idx - A.argc), "index %r" % A.idx)
    few, enough = st.split(A.lo - A.num - 1)
    if enough is None:
        return ob(USE, "too few unnamed arguments are reported", c.isstatus(ex, "TOO_FEW_ARGS"))
    if few is not None:
        return ob(USE, "too few unnamed arguments are reported", False)
    req = [e for e in rest if isinstance(e, LoopEv)]

    def absent(t, d, evs):
        """no parsed argument has definition d"""
        x = c.sym("x", 0, 1 << 40)
        u = t.assume(A.n - 1 - x)
        if u is None:
            return True
        for le in evs:
            if isinstance(le, LoopEv) and t.entails_eq(le.count - A.n):
                if not any(v.assume_eq(V(term("def", (x,), -1, MAXN)) - d) for v, p in at(u, le, x)):
                    return True
        return False
    if ok:
        t = st.assume(A.D - 1 - q)
        good = not A.args or t is None
        for le in req:
            if not good and st.entails_eq(le.count - A.D):
                good = all(u.entails_eq(field(A, u, q, "required")) or present(A, u, q) for u, p in at(t, le, q))
        return ob(USE, "every required argument is present on success", good)
    if not c.isstatus(ex, "REQUIRED_ARG_MISSING"):
        return ob(USE, "the outcome is the one of the grammar", False)
    outer = [le for le in req if any(isinstance(x, LoopEv) for p in le.paths for x in p.events)] or req
    d = outer[0].count if outer and A.args else None
    good = d is not None and st.entails(A.D - 1 - d) and st.entails(field(A, st, d, "required") - 1) and absent(st, d, req)
    ob(USE, "a required argument is reported missing only if it is", good)
    if A.err is not None:
        ob(USE, "the missing argument is named", d is not None and isinstance(tok, Ptr) and tok.r is A.nam and st.entails_eq(tok.o - d * VS), repr(tok))


def present(A, u, q):
    for cc in u.cons:
        for a in cc.atoms():
            x = ATOMS[a]
            if x.kind == "def" and u.entails_eq(V(x) - q) and u.entails(A.n - 1 - x.args[0]) and u.entails(x.args[0]):
                return True
    return False


def wrapper(w):
    got = []

    def ex_(I, st, inst, a):
        r = I.fresh("result", 0, (1 << 32) - 1)
        I.emit(st, "argparse", "ZyanArgParseEx", a, r, inst)
        return [(st, r)]

    def default(I, st, inst, a):
        return [(st, Ptr(al))]
    c = Case(w, "ZyanArgParse", "any", RES, stubs={"ZyanArgParseEx": ex_, "ZyanAllocatorDefault": default})
    rs = [c.region(n, K(64), "cells") for n in ("cfg", "parsed", "error_token")]
    al = c.region("default allocator", K(64), "cells")
    for r in rs + [al]:
        r.policy = opaque
    c.run(*[Ptr(r) for r in rs])
    for ex in c.exits:
        es = [e for e in ex.st.events() if e.kind == "argparse"]
        if c.require(USE, "the parser runs once", ex, len(es) == 1):
            c.require(USE, "on the given configuration and outputs, with the default allocator", ex, es[0].args == tuple(Ptr(r) for r in rs + [al]), repr(es[0].args))
            c.prove_eq(USE, "its result is returned", ex, ex.ret, es[0].ret)


def tasks(prop=None):
    return [(total, True, True, k, 3) for k in range(3)] + [(total, True, False, 0, 3), (total, False, True), (total, False, False), (wrapper,)] + [(boundary, k, 4) for k in range(4)]
