"""Abstract interpreter over LLVM IR: trace-partitioned forward analysis with a relational
numeric domain (lin.py), a symbolic memory (scalar cells + ordered range-write logs) and
loop summaries obtained by fixpoint (induction-variable recognition + candidate invariants).

Nothing is executed: every function is interpreted once over abstract values that stand for
all inputs at the same time; loops are summarised, never unrolled on symbolic bounds."""
import sys
from .lin import *
from . import lin
from .llvmc import (CInt, CNull, CUndef, CZero, CGlobal, CGep, COther, Arg, Inst, natural_loops)
from .build import std_function

sys.setrecursionlimit(20000)


class Imprecise(Exception):
    """the analysis gave up on this entry (reported as 'undecided', never as a violation)"""


class Region:
    n = 0

    def __init__(s, name, size=None, mode="cells", maybe_null=False, kind="obj", policy=None, known=None):
        s.id = Region.n
        Region.n += 1
        s.name, s.size, s.mode, s.maybe_null, s.kind, s.policy = name, size, mode, maybe_null, kind, policy
        s.known = known or []       # [(off P, size, value)] initial content facts
        s.model = None              # for functions
        s.bytes = None              # constant content
        s.cache = {}
        s.readonly = False
        s.init_content = "atom"     # 'atom' | 'uninit' | 'zero'
        s.elem_hi = 255
        s.imprecise = False
        s.cstr = False              # no byte before `term` is zero
        s.chars = None              # P: C string length if NUL-terminated at that offset
        s.tag = None
        s.access = None             # own validity check of accesses
        s.nullat = ()               # offsets that denote NULL (ends of a linked list)
        s.stride = None             # distance of the objects in the region
        s.term = None               # P: a zero byte is known to be at that offset initially

    def __repr__(s):
        return s.name


class Ptr:
    __slots__ = ("r", "o")

    def __init__(s, r, o=ZERO):
        s.r, s.o = r, o

    def __eq__(s, x):
        return isinstance(x, Ptr) and s.r is x.r and s.o == x.o

    def __hash__(s):
        return hash((s.r.id, s.o))

    def __repr__(s):
        return "&%s+%r" % (s.r.name, s.o)


NULLR = Region("NULL", K(0))
NULLP = Ptr(NULLR)


class Undef:
    def __repr__(s):
        return "undef"


UNDEF = Undef()


class Agg:
    __slots__ = ("v",)

    def __init__(s, v):
        s.v = v


class Ev:
    """an observable effect"""
    __slots__ = ("kind", "name", "args", "ret", "loc", "fn", "x")

    def __init__(s, kind, name, args=(), ret=None, loc="", fn="", x=None):
        s.kind, s.name, s.args, s.ret, s.loc, s.fn, s.x = kind, name, tuple(args), ret, loc, fn, x

    def __repr__(s):
        return "%s:%s(%s)->%r" % (s.kind, s.name, ", ".join(map(repr, s.args)), s.ret)


class LoopPath:
    __slots__ = ("conds", "diseq", "events", "writes")

    def __init__(s, conds, diseq, events, writes):
        s.conds, s.diseq, s.events, s.writes = conds, diseq, events, writes


class LoopEv:
    """completed iterations j = 0..count-1, each following one of `paths`"""
    kind = "loop"

    def __init__(s, j, count, paths, loc, fn):
        s.j, s.count, s.paths, s.loc, s.fn = j, count, paths, loc, fn

    def __repr__(s):
        return "loop(%s<%r: %d paths; %s)" % (s.j, s.count, len(s.paths), [p.events for p in s.paths])


class W:
    """range write: [off, off+len) of a region"""
    __slots__ = ("kind", "off", "len", "val", "x")

    def __init__(s, kind, off, ln, val, x=None):
        s.kind, s.off, s.len, s.val, s.x = kind, off, ln, val, x

    def __repr__(s):
        return "%s[%r,+%r)=%r" % (s.kind, s.off, s.len, s.val)


class State:
    __slots__ = ("cons", "diseq", "cells", "logs", "null", "freed", "ev", "flags")

    def __init__(s):
        s.cons, s.diseq, s.cells, s.logs, s.null, s.freed, s.ev, s.flags = (), (), {}, {}, {}, frozenset(), None, frozenset()

    def fork(s):
        n = State.__new__(State)
        n.cons, n.diseq, n.freed, n.ev, n.flags = s.cons, s.diseq, s.freed, s.ev, s.flags
        n.cells, n.logs, n.null = dict(s.cells), dict(s.logs), dict(s.null)
        return n

    def events(s):
        out = []
        e = s.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def emit(s, ev):
        s.ev = (s.ev, ev)

    # --- numeric
    def entails(s, p):
        if entails(s.cons, p):
            return True
        if s.diseq and p.const() is None:
            # p >= 0 given p+1 >= 0 and p+1 != 0
            for d in s.diseq:
                if (d == p + 1 or d == -p - 1) and entails(s.cons, p + 1):
                    return True
        return False

    def entails_eq(s, p):
        c = p.const()
        if c is not None:
            return c == 0 or infeasible(s.cons)
        return s.entails(p) and s.entails(-p)

    def assume(s, p):
        """p >= 0; returns state or None if infeasible"""
        if s.entails(p):
            return s
        if s.entails(-p - 1):
            return None
        n = s.fork()
        n.cons = s.cons + (norm(p),)
        if n.diseq:
            return n._tighten()
        return n

    def _tighten(n):
        keep = []
        ch = False
        for d in n.diseq:
            if entails(n.cons, d):
                if entails(n.cons, -d):
                    return None
                n.cons = n.cons + (norm(d - 1),)
                ch = True
            elif entails(n.cons, -d):
                n.cons = n.cons + (norm(-d - 1),)
                ch = True
            else:
                keep.append(d)
        n.diseq = tuple(keep)
        if ch and infeasible(n.cons):
            return None
        return n

    def assume_eq(s, p):
        a = s.assume(p)
        a = a and a.assume(-p)
        if a is not None and a.diseq:
            a = a.fork()._tighten()
        return a

    def assume_ne(s, p):
        if s.entails(p):
            return s.assume(p - 1)
        if s.entails(-p):
            return s.assume(-p - 1)
        n = s.fork()
        n.diseq = s.diseq + (p,)
        return n

    def split(s, p):
        """(state with p>=0 or None, state with p<0 or None)"""
        if s.entails(p):
            return s, None
        if s.entails(-p - 1):
            return None, s
        a, b = s.fork(), s.fork()
        a.cons = s.cons + (norm(p),)
        b.cons = s.cons + (norm(-p - 1),)
        if s.diseq:
            a, b = a._tighten(), b._tighten()
        return a, b

    def split_eq(s, p):
        """(p == 0, p != 0)"""
        if s.entails(p - 1) or s.entails(-p - 1) or p in s.diseq or (-p) in s.diseq:
            return None, s
        if s.entails_eq(p):
            return s, None
        return s.assume_eq(p), s.assume_ne(p)

    # --- cells
    def getcell(s, r, off):
        c = s.cells.get(r.id)
        return c.get(off) if c else None

    def setcell(s, r, off, size, val):
        c = dict(s.cells.get(r.id, {}))
        for o in list(c):
            if o != off and o < off + size and off < o + c[o][0]:
                del c[o]
        c[off] = (size, val)
        s.cells[r.id] = c


class Issue:
    def __init__(s, kind, msg, loc, stack, state, goal=None, entry=None, imprecise=False):
        s.kind, s.msg, s.loc, s.stack, s.state, s.goal, s.entry, s.imprecise = kind, msg, loc, stack, state, goal, entry, imprecise

    def __repr__(s):
        return "%s %s at %s in %s" % (s.kind, s.msg, s.loc, "<-".join(reversed(s.stack)))


def leaf(ty, off):
    """size of the scalar of this type that begins at the offset; 0: none begins there; None: outside"""
    if off < 0 or off >= max(ty.size, 1):
        return None
    if ty.kind == "struct":
        for e, o in zip(ty.elems, ty.offsets):
            if o <= off < o + e.size:
                return leaf(e, off - o)
        return 0
    if ty.kind == "array":
        return leaf(ty.elems, off % ty.elems.size)
    return ty.size if off == 0 else 0


class Interp:
    MAXSTATES = 4000
    extra_cands = extra_pair_cands = extra_loop_cands = None
    lemma = None          # contract-supplied facts about ghost terms: (state, goal) -> state
    BUDGET = 60000

    def __init__(s, module, models=None, stubs=None, unroll=0):
        s.m = module
        s.unroll = unroll
        s.peel_first = False
        s.extra_rank = None
        s.unroll_limit = 9          # loops whose trip count is decided are unrolled up to this number of iterations
        s.unroll_width = 64         # ... as long as there are no more than this number of states
        s.table_atoms = False
        s.shared = set()            # regions other threads access concurrently
        s.in_atomic = False
        s.loop_cut = None           # analyse loops in two phases: up to this number of iterations and beyond
        s.dropped = 0
        from . import models as M
        s.models = dict(M.EXTERNAL)
        if models:
            s.models.update(models)
        s.stubs = stubs or {}
        s.on_loop = None       # called with every loop whose summary is final
        s.ranked = None        # (loop, ranking function or None) of every loop, when a list
        s.stuck = []           # refutation mode: loop states that come back unchanged
        s.stack = []
        s.issues = []
        s.quiet = 0
        s.regions = {}
        s.gcache = {}
        s.fncache = {}
        s.nfresh = 0
        s.visited = set()      # functions analysed
        s.ninst = 0
        s.nstates = 0
        s.loopinfo = []
        s.addr_regions = {}
        s.ncall = 0
        s.nlv = 0
        s.loopk = []           # enclosing loop counters
        s.trace = False

    # ------------------------------------------------------------ utilities
    def fresh(s, name, lo=0, hi=U64, imprecise=False):
        s.nfresh += 1
        if s.loopk:
            return V(term("sym", (name, s.nfresh) + tuple(V(k) for k in s.loopk), lo, hi,
                          name="%s'%d" % (name, s.nfresh), imprecise=imprecise))
        return V(atom("%s'%d" % (name, s.nfresh), lo, hi, imprecise=imprecise))

    def callid(s):
        """identifies the current call (in loops: of the current iteration)"""
        return (s.ncall,) + tuple(V(k) for k in s.loopk)

    def loc(s, inst):
        f = inst.file
        i = f.find("/src/")
        if i < 0:
            i = f.find("/include/")
        return "%s:%d" % (f[i + 1:] if i >= 0 else f, inst.line)

    def issue(s, kind, msg, st, inst, goal=None, imprecise=False):
        if s.quiet:
            return
        s.issues.append(Issue(kind, msg, s.loc(inst) if inst is not None else "?", list(s.stack), st, goal, imprecise=imprecise))

    def emit(s, st, kind, name, args=(), ret=None, inst=None, x=None):
        e = Ev(kind, name, args, ret, s.loc(inst) if inst is not None else "", s.stack[-1] if s.stack else "", x)
        st.emit(e)
        return e

    # ------------------------------------------------------------ regions for globals/functions
    def global_region(s, name):
        r = s.gcache.get(name)
        if r is not None:
            return r
        if name in s.m.functions:
            r = Region(name, K(1), kind="fn")
            r.fname = name
        else:
            g = s.m.globals[name]
            r = Region("@" + name, K(g.type.size), mode="array" if g.type.kind == "array" else "cells", kind="global")
            r.readonly = g.const
            r.ginit = g.init
            r.gtype = g.type
            if isinstance(g.init, bytes):
                r.bytes = g.init
            elif isinstance(g.init, CZero):
                r.init_content = "zero"
        s.gcache[name] = r
        return r

    def const_init(s, init, ty, off):
        """value of a global initializer at byte offset -> (value) or None"""
        if isinstance(init, list):
            if ty.kind == "struct":
                for i, e in enumerate(ty.elems):
                    o = ty.offsets[i]
                    if o <= off < o + max(e.size, 1):
                        return s.const_init(init[i], e, off - o)
            elif ty.kind == "array":
                i = off // ty.elems.size
                return s.const_init(init[i], ty.elems, off - i * ty.elems.size)
            return None
        if isinstance(init, bytes):
            return K(init[off])
        if isinstance(init, CZero):
            return K(0)
        if off != 0:
            return None
        return s.cval(init)

    def cval(s, c):
        if isinstance(c, CInt):
            return K(c.v)
        if isinstance(c, CNull):
            return NULLP
        if isinstance(c, CGlobal):
            return Ptr(s.global_region(c.name))
        if isinstance(c, CGep):
            b = s.cval(c.base)
            return Ptr(b.r, b.o + c.off)
        if isinstance(c, CZero):
            return K(0)
        return UNDEF

    def val(s, v, env):
        if isinstance(v, (Inst, Arg)):
            return env[v.id]
        return s.cval(v)

    # ------------------------------------------------------------ scalar helpers
    def num(s, st, v, inst, width=64):
        """value as number (P); pointers become address atoms"""
        if isinstance(v, P):
            return v
        if isinstance(v, Ptr):
            if v.r is NULLR:
                return v.o
            a = term("addr", (v.r,), 0 if v.r.maybe_null else 1, U64)
            s.addr_regions[a.id] = v.r
            return V(a) + v.o
        if v is UNDEF:
            s.issue("uninit", "use of an uninitialised value", st, inst)
            return s.fresh("undef", 0, (1 << width) - 1, imprecise=True)
        raise Imprecise("non-scalar value %r" % (v,))

    def wrap(s, st, e, w, inst=None):
        """machine value of mathematical integer e in width w: list of (state, P)"""
        M = 1 << w
        c = e.const()
        if c is not None:
            return [(st, K(c % M))]
        ge0 = st.entails(e)
        lt = st.entails(K(M - 1) - e)
        if ge0 and lt:
            return [(st, e)]
        l, u = e.lb(), e.ub()
        out = []
        if not ge0 and not lt or l is None or u is None or u - l > 4 * M or (u is not None and u >= 2 * M) or (l is not None and l < -M):
            # general: e = t + M*q
            if ge0 and not st.entails(K(2 * M - 1) - e):
                a, b = st.split(K(M - 1) - e)
                if a:
                    out.append((a, e))
                if b:
                    q = V(term("wrapq", (e, w), 1, None))
                    t = V(term("wrapt", (e, w), 0, M - 1))
                    b = b.assume_eq(e - t - q * M)
                    if b:
                        b = b.fork()
                        b.flags = b.flags | {"wrap"}
                        out.append((b, t))
                return out
        # cases by number of wraps, small
        cur = st
        a, rest = cur.split(K(M - 1) - e)       # e < M
        if a:
            a1, a2 = a.split(e)                  # e >= 0
            if a1:
                out.append((a1, e))
            if a2:
                b1, b2 = a2.split(e + M)         # -M <= e < 0
                if b1:
                    out.append((b1, e + M))
                if b2:
                    t = V(term("wrapt", (e, w), 0, M - 1, imprecise=True))
                    out.append((b2, t))
        if rest:
            b1, b2 = rest.split(K(2 * M - 1) - e)
            if b1:
                out.append((b1, e - M))
            if b2:
                q = V(term("wrapq", (e, w), 2, None))
                t = V(term("wrapt", (e, w), 0, M - 1))
                b2 = b2.assume_eq(e - t - q * M)
                if b2:
                    out.append((b2, t))
        return out

    def divmod(s, st, a, d):
        """a = d*q + r with 0<=r<d, d constant > 0: (state, q, r)"""
        c = a.const()
        if c is not None:
            return st, K(c // d), K(c % d)
        if d == 1:
            return st, a, ZERO
        # exact split of syntactic multiples
        mul = {m: c for m, c in a.t.items() if c % d == 0}
        rest = P({m: c for m, c in a.t.items() if c % d})
        k = rest.t.get((), 0)
        base = P({m: c // d for m, c in mul.items()})
        if k:
            base = base + k // d
            rest = rest + (-(k // d) * d)
        if not rest.t:
            return st, base, ZERO
        if st.entails(rest) and st.entails(K(d - 1) - rest):
            return st, base, rest
        x = rest.single()
        if x is not None and x.kind == "div" and isinstance(x.args[1], int) and (x.lo or 0) >= 0 and x.lo is not None:
            # (y / a) / b = y / (a * b)
            y, a = x.args
            l, u = x.lo, x.hi
            q = term("div", (y, a * d), l // d, u // d if u is not None else None)
            r = term("mod", (rest, d), 0, d - 1)
            st = st.assume_eq(rest - V(q) * d - V(r))
            if st is None:
                return None, None, None
            return st, base + V(q), V(r)
        if x is not None and x.kind == "mod" and isinstance(x.args[1], int) and x.args[1] % d == 0:
            # (y mod M) mod d = y mod d  if d divides M
            u, _, r = s.divmod(st, x.args[0], d)
            q = term("div", (rest, d), 0, (x.args[1] - 1) // d)
            u = u and u.assume_eq(rest - V(q) * d - r)
            return (u, base + V(q), r) if u is not None else (None, None, None)
        l, u = rest.lb(), rest.ub()
        q = term("div", (rest, d), l // d if l is not None else None, u // d if u is not None else None)
        r = term("mod", (rest, d), 0, d - 1)
        if (l is None or l < 0) and st.entails(rest):
            st = st.assume(V(q))
        st = st and st.assume_eq(rest - V(q) * d - V(r))
        if st is None:
            return None, None, None
        return st, base + V(q), V(r)

    def signed(s, st, a, w):
        """signed readings of unsigned value a: [(state, P)]"""
        H = 1 << (w - 1)
        c = a.const()
        if c is not None:
            return [(st, K(c - (1 << w) if c >= H else c))]
        x, y = st.split(K(H - 1) - a)
        out = []
        if x:
            out.append((x, a))
        if y:
            out.append((y, a - (1 << w)))
        return out

    # bits ------------------------------------------------------------
    def bits(s, st, a, w):
        """list of w bit-polys (0/1 valued), LSB first, and state with linking facts"""
        c = a.const()
        if c is not None:
            return st, [K((c >> i) & 1) for i in range(w)]
        if a.t.get((), 0) == (1 << w) - 1 and all(co < 0 for m, co in a.t.items() if m):
            st, bl = s.bits(st, K((1 << w) - 1) - a, w)
            return st, [ONE - b for b in bl] if st is not None else None
        # sum of weighted bit atoms?
        k = a.t.get((), 0)
        got = {}
        ok = True
        for m, co in a.t.items():
            if not m:
                continue
            if len(m) != 1 or ATOMS[m[0]].lo != 0 or ATOMS[m[0]].hi != 1:
                ok = False
                break
            n = abs(co)
            if n & (n - 1) or n.bit_length() - 1 in got or n.bit_length() > w:
                ok = False
                break
            i = n.bit_length() - 1
            if co > 0:
                got[i] = P({m: 1})
            else:
                got[i] = ONE - P({m: 1})
                k -= n
        if ok and k >= 0:
            kb = [(k >> i) & 1 for i in range(w)]
            if k < (1 << w) and not any(kb[i] and i in got for i in range(w)):
                return st, [got.get(i, K(kb[i])) for i in range(w)]
        bl = [V(term("bit", (a, i), 0, 1)) for i in range(w)]
        tot = ZERO
        for i in range(w):
            tot = tot + bl[i] * (1 << i)
        st = st.assume_eq(a - tot)
        return st, bl

    def range(s, st, a):
        """bounds of a from its own range and the facts about exactly this expression"""
        lo, hi = a.lb(), a.ub()
        base = {m: c for m, c in a.t.items() if m}
        k = a.t.get((), 0)
        if not base:
            return k, k
        m0, c0 = next(iter(base.items()))
        for c in st.cons:
            d = c.t.get(m0)
            if d is None or len(c.t) - (() in c.t) != len(base):
                continue
            f = d // c0 if c0 and d % c0 == 0 else 0
            if not f or any(c.t.get(m) != f * x for m, x in base.items()):
                continue
            e = c.t.get((), 0)          # f*(a-k) + e >= 0
            if f > 0:
                v = -(e // f) + k
                lo = v if lo is None or v > lo else lo
            else:
                v = e // -f + k
                hi = v if hi is None or v < hi else hi
        return lo, hi

    def field_split(s, a, k):
        """a = hi*2^k + lo, decided by the weights of the terms alone; None if that is not possible"""
        hi, lo = ZERO, ZERO
        for m, co in a.t.items():
            if m and mono_range(m)[0] is None or m and mono_range(m)[0] < 0 or co < 0:
                return None
            if co % (1 << k) == 0:
                hi = hi + P({m: co >> k})
            elif not m:
                hi = hi + (co >> k)
                lo = lo + (co & ((1 << k) - 1))
            else:
                lo = lo + P({m: co})
        u = lo.ub()
        if u is None or u >= 1 << k:
            return None
        return hi, lo

    def field_mask(s, a, mask, w):
        """a & mask where the mask separates disjoint groups of weighted terms; None if it does not"""
        res, bit = ZERO, 0
        rest = a
        while bit < w:
            on = (mask >> bit) & 1
            n = bit
            while n < w and ((mask >> n) & 1) == on:
                n += 1
            if n >= w:
                u = rest.ub()
                l = rest.lb()
                if u is None or l is None or l < 0 or u >= 1 << (w - bit):
                    return None
                lo, rest = rest, ZERO
            else:
                r = s.field_split(rest, n - bit)
                if r is None:
                    return None
                rest, lo = r
            if on:
                res = res + lo * (1 << bit)
            bit = n
        return res

    def shr(s, st, a, k):
        """a >> k for an unsigned value"""
        if k == 0:
            return st, a
        x = a.single()
        if x is not None and x.kind == "init" and (a.ub() or 256) <= 255 and k < 8:
            st, bl = s.bits(st, a, 8)
            return st, s.frombits(bl[k:]) if st is not None else None
        if len(a.t) > 1:
            r = s.field_split(a, k)
            if r is not None:
                return st, r[0]
        st, q, _ = s.divmod(st, a, 1 << k)
        return st, q

    def frombits(s, bl):
        # recombine x when all its bits are in place
        a0 = bl[0].single() if isinstance(bl[0], P) else None
        if a0 is not None and a0.kind == "bit":
            src = a0.args[0]
            if all((lambda x: x is not None and x.kind == "bit" and x.args[0] == src and x.args[1] == i)(b.single())
                   for i, b in enumerate(bl)) and src.ub() is not None and src.ub() < (1 << len(bl)):
                return src
        t = ZERO
        for i, b in enumerate(bl):
            t = t + b * (1 << i)
        return t

    def bitop(s, st, op, x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return st, K({"and": cx & cy, "or": cx | cy, "xor": cx ^ cy}[op])
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            if op == "and":
                return st, (x if cy else ZERO)
            if op == "or":
                return st, (ONE if cy else x)
            return st, (ONE - x if cy else x)
        if x == y:
            return st, (ZERO if op == "xor" else x)
        if x == ONE - y:
            return st, (ZERO if op == "and" else ONE)
        k = sorted((x, y), key=repr)
        r = V(term("b" + op, tuple(k), 0, 1))
        cs = {"and": [x - r, y - r, r - x - y + 1], "or": [r - x, r - y, x + y - r],
              "xor": [x + y - r, r - x + y, r - y + x, K(2) - x - y - r]}[op]
        for c in cs:
            st = st.assume(c)
            if st is None:
                return None, None
        return st, r

    def logic(s, st, op, a, b, w, inst):
        """list of (state, value)"""
        if a == b:
            return [(st, ZERO if op == "xor" else a)]
        ca, cb = a.const(), b.const()
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        full = (1 << w) - 1
        if cb is not None and ca is not None:
            return [(st, K({"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]))]
        if cb is not None:
            if op == "and":
                u = a.ub()
                if u is not None and u >= 0 and a.lb() is not None and a.lb() >= 0:
                    have = full & ((1 << u.bit_length()) - 1)
                    cb &= have                            # only bits the value can have
                    if cb == have and have + 1 >= 1 << u.bit_length():
                        return [(st, a)]
                    b = K(cb)
                    full = have
                if cb == 0:
                    return [(st, ZERO)]
                if len(a.t) > 1:
                    r = s.field_mask(a, cb, w)
                    if r is not None:
                        return [(st, r)]
                x1 = a.single()
                byte = x1 is not None and x1.kind == "init" and (a.ub() or 256) <= 255
                if cb & (cb + 1) == 0 and not byte:          # low mask
                    st2, q, r = s.divmod(st, a, cb + 1)
                    return [(st2, r)] if st2 else []
                inv = full & ~cb
                if not byte and (inv & (inv + 1) == 0 and a.single() is None or (inv & (inv + 1) == 0 and w > 8)):
                    st2, q, r = s.divmod(st, a, inv + 1)
                    return [(st2, a - r)] if st2 else []
                if cb == 1 << (w - 1):
                    x, y = st.split(a - cb)
                    return [(t, v) for t, v in ((x, K(cb)), (y, ZERO)) if t]
            elif cb == 0:
                return [(st, a)]
            elif op == "xor" and cb == full:
                return [(st, K(full) - a)]
            elif op == "or" and cb == full:
                return [(st, K(full))]
        if cb is not None:
            # every bit the mask acts on is fixed by the value's range
            lo, hi = s.range(st, a)
            if lo is not None and hi is not None and 0 <= lo <= hi <= full:
                fixed = full & ~((1 << (lo ^ hi).bit_length()) - 1)
                act = (full & ~cb) if op == "and" else cb
                if act & ~fixed == 0:
                    if op == "and":
                        return [(st, a - (lo & act))]
                    if op == "or":
                        return [(st, a + (act & ~lo))]
                    return [(st, a + (act & ~lo) - (act & lo))]
        ua, ub = a.ub(), b.ub()
        if ua is not None and ub is not None and ua <= 255 and ub <= 255:
            n = 8 if w >= 8 else w
            if max(ua, ub) <= 1:
                n = 1
            st, x = s.bits(st, a, n)
            if st is None:
                return []
            st, y = s.bits(st, b, n)
            if st is None:
                return []
            out = []
            for i in range(n):
                st, v = s.bitop(st, op, x[i], y[i])
                if st is None:
                    return []
                out.append(v)
            return [(st, s.frombits(out))]
        if cb is not None and bin(cb).count("1") <= 8:
            # single-bit corrections on a wide value
            res = a if op != "and" else ZERO
            for i in range(w):
                if (cb >> i) & 1:
                    st2, q, r = s.divmod(st, a, 1 << (i + 1))
                    if st2 is None:
                        return []
                    st3, b1, r1 = s.divmod(st2, r, 1 << i)
                    if st3 is None:
                        return []
                    st = st3
                    if op == "and":
                        res = res + b1 * (1 << i)
                    elif op == "or":
                        res = res + (ONE - b1) * (1 << i)
                    else:
                        res = res + (ONE - b1 * 2) * (1 << i)
            return [(st, res)]
        if op == "or" and cb is None:
            # disjoint by alignment?  a multiple of 2^k, b < 2^k
            for x, y in ((a, b), (b, a)):
                u = y.ub()
                if u is not None:
                    k = u.bit_length()
                    if all(c % (1 << k) == 0 for c in x.t.values()):
                        return [(st, x + y)]
        lo, hi = 0, full
        if op == "and":
            his = [h for h in (ua, ub) if h is not None]
            hi = min(his + [full])
            # leading bits both operands are known to have
            ra, rb = s.range(st, a), s.range(st, b)
            if None not in ra + rb and min(ra[0], rb[0]) >= 0 and max(ra[1], rb[1]) <= full:
                fx = [full & ~((1 << (x ^ y).bit_length()) - 1) for x, y in (ra, rb)]
                lo = ra[0] & fx[0] & rb[0] & fx[1]
        t = V(term(op, tuple(sorted((a, b), key=repr)) + (w,), lo, hi))
        if op == "and":
            st = st.assume(a - t)
            st = st and st.assume(b - t)
        elif op == "or":
            st = st.assume(t - a)
            st = st and st.assume(t - b)
            st = st and st.assume(a + b - t)
        return [(st, t)] if st else []

    # ------------------------------------------------------------ pointers
    def isnull(s, st, p):
        """[(state, bool)]"""
        if not isinstance(p, Ptr):
            a, b = st.split_eq(p)
            return [(t, v) for t, v in ((a, True), (b, False)) if t]
        if p.r is NULLR:
            if p.o.const() == 0:
                return [(st, True)]
            a, b = st.split_eq(p.o)
            return [(t, v) for t, v in ((a, True), (b, False)) if t]
        if p.r.nullat:
            out = []
            for z in p.r.nullat:
                a, st = st.split_eq(p.o - z)
                if a:
                    out.append((a, True))
                if st is None:
                    return out
            return out + [(st, False)]
        if not p.r.maybe_null:
            return [(st, False)]
        k = st.null.get(p.r.id)
        if k is not None:
            return [(st, k)]
        a, b = st.fork(), st.fork()
        a.null[p.r.id] = True
        b.null[p.r.id] = False
        return [(a, True), (b, False)]

    def ptr_eq(s, st, a, b):
        if not isinstance(a, Ptr) and isinstance(a, P) and a.const() == 0:
            a = NULLP
        if not isinstance(b, Ptr) and isinstance(b, P) and b.const() == 0:
            b = NULLP
        if isinstance(a, P) or isinstance(b, P):
            d = s.num(st, a, None) - s.num(st, b, None)
            x, y = st.split_eq(d)
            return [(t, v) for t, v in ((x, True), (y, False)) if t]
        if a.r is b.r:
            x, y = st.split_eq(a.o - b.o)
            return [(t, v) for t, v in ((x, True), (y, False)) if t]
        if b.r is NULLR:
            return s.isnull(st, a)
        if a.r is NULLR:
            return s.isnull(st, b)
        if a.r.imprecise or b.r.imprecise:
            return [(st.fork(), True), (st.fork(), False)]
        out = []
        for t, na in s.isnull(st, a):
            for u, nb in s.isnull(t, b):
                out.append((u, na and nb))
        return out

    def addr(s, st, p, n, inst, write=False, what="access"):
        """check that [p, p+n) is inside a live object; returns [(state, region, off)] of the valid part"""
        if isinstance(p, P):
            c = p.const()
            if c == 0:
                s.issue("nullderef", "null pointer %s" % what, st, inst)
                return []
            r = None
            for a in p.atoms():
                if a in s.addr_regions:
                    r = s.addr_regions[a]
                    p = Ptr(r, p - V(ATOMS[a]))
                    break
            else:
                s.issue("badptr", "%s through a non-pointer value" % what, st, inst, imprecise=True)
                return []
        if p is UNDEF:
            s.issue("uninit", "%s through an uninitialised pointer" % what, st, inst)
            return []
        out = []
        for t, isn in s.isnull(st, p):
            if isn:
                s.issue("nullderef", "null pointer %s (%s)" % (what, p.r.name), t, inst)
                continue
            if p.r.id in t.freed:
                s.issue("uaf", "%s to released memory %s" % (what, p.r.name), t, inst)
                continue
            if p.r.access is not None:
                out += [(u, p.r, p.o) for u in p.r.access(s, t, p.o, n, inst, what)]
                continue
            if write and p.r.readonly:
                s.issue("romem", "write to read-only object %s" % p.r.name, t, inst)
            if p.r.size is not None and not p.r.imprecise:
                lo = p.o
                hi = p.r.size - p.o - n
                if not t.entails(lo):
                    s.issue("oob", "%s below %s: offset %r" % (what, p.r.name, p.o), t, inst, lo)
                    t = t.assume(lo)
                    if t is None:
                        continue
                if not t.entails(hi):
                    s.issue("oob", "%s beyond %s (size %r): offset %r length %r" % (what, p.r.name, p.r.size, p.o, n), t, inst, hi)
                    t = t.assume(hi)
                    if t is None:
                        continue
            out.append((t, p.r, p.o))
        return out

    # ------------------------------------------------------------ memory
    def store(s, st, p, v, size, inst):
        out = []
        for t, r, o in s.addr(st, p, K(size), inst, True, "write"):
            t = t.fork()
            if r.id in s.shared and not s.in_atomic:
                s.emit(t, "shared", "plain store", [Ptr(r, o), K(size), v], None, inst)
            c = o.const()
            if r.mode == "cells" and c is not None:
                t.setcell(r, c, size, v)
                if r.id in t.logs:
                    pass
            else:
                if r.mode == "cells":
                    s.dropcells(t, r, o, K(size))
                t.logs[r.id] = (t.logs.get(r.id), W("store", o, K(size), v))
            out.append(t)
        return out

    def dropcells(s, st, r, o, n):
        c = st.cells.get(r.id)
        if not c:
            return
        c2 = {}
        for co, (sz, v) in c.items():
            if st.entails(o - (co + sz)) or st.entails(K(co) - o - n):
                c2[co] = (sz, v)
        st.cells[r.id] = c2

    def range_write(s, st, kind, r, o, n, val, x=None):
        """append a range write to region r (in place on a forked state)"""
        if r.mode == "cells":
            s.dropcells(st, r, o, n)
        st.logs[r.id] = (st.logs.get(r.id), W(kind, o, n, val, x))

    def load(s, st, p, size, isptr, inst):
        out = []
        for t, r, o in s.addr(st, p, K(size), inst, False, "read"):
            if r.id in s.shared:
                # another thread may have changed it since the last access
                t = t.fork()
                v = s.fresh("shared", 0, (1 << (8 * size)) - 1)
                if not s.in_atomic:
                    s.emit(t, "shared", "plain load", [Ptr(r, o), K(size)], v, inst)
                out.append((t, v))
                continue
            out += s.read(t, r, o, size, isptr, inst)
        return out

    def read(s, st, r, o, size, isptr, inst=None):
        """content of region r at offset o in the current memory of st"""
        if r.mode == "cells":
            c = o.const()
            if c is None:
                c = s.pinned(st, o, st.cells.get(r.id), size)
            if c is not None:
                cell = st.getcell(r, c)
                if cell is not None:
                    if cell[0] == size:
                        return [(st, cell[1])]
                    return s.subcell(st, cell, 0, size)
                cc = st.cells.get(r.id)
                if cc:
                    for co, (sz, v) in cc.items():
                        if co < c and c + size <= co + sz:
                            return s.subcell(st, (sz, v), c - co, size)
                        if c < co + sz and co < c + size and not (co <= c and c + size <= co + sz):
                            # partial overlap: try to glue bytes
                            return [(st, s.fresh("partial", 0, (1 << (8 * size)) - 1, imprecise=True))]
                if r.id not in st.logs:
                    return s.initial(st, r, o, size, isptr)
        return s.resolve(st, r, st.logs.get(r.id), o, size, isptr)

    def pinned(s, st, o, cells, size):
        """the only cell offset a symbolic offset can denote"""
        for co, (sz, v) in (cells or {}).items():
            if sz == size and st.entails_eq(o - co):
                return co
        return None

    def subcell(s, st, cell, shift, size):
        sz, v = cell
        if v is UNDEF:
            return [(st, UNDEF)]
        if isinstance(v, Ptr) and v.r is NULLR:
            v = v.o
        if isinstance(v, P):
            st2, q, r = s.divmod(st, v, 1 << (8 * shift))
            if st2 is None:
                return []
            st3, q2, r2 = s.divmod(st2, q, 1 << (8 * size))
            return [(st3, r2)] if st3 else []
        return [(st, s.fresh("part", 0, (1 << (8 * size)) - 1, imprecise=True))]

    def resolve(s, st, r, log, o, size, isptr, depth=0):
        """walk the write log backwards; partitions on undecided overlaps"""
        if depth > 60:
            return [(st, s.fresh("deep", 0, (1 << (8 * size)) - 1, imprecise=True))]
        while log is not None:
            prev, w = log
            if w.kind == "havoc":
                return [(st, s.fresh("havoc", 0, (1 << (8 * size)) - 1, imprecise=True))]
            if w.kind == "loop":
                res = s.resolve_loop(st, r, prev, w, o, size, isptr, depth)
                if res is not None:
                    return res
                log = prev
                continue
            lo_out = K(0) + w.off - o - size          # o+size <= off
            hi_out = o - w.off - w.len                # off+len <= o
            if st.entails(lo_out) or st.entails(hi_out) or st.entails(-w.len):
                log = prev
                continue
            ins = o - w.off
            inh = w.off + w.len - o - size
            if st.entails(ins) and st.entails(inh):
                return s.from_write(st, w, ins, size, isptr, depth)
            # partition
            out = []
            if r.stride is not None:
                # objects at multiples of the stride: first decide which of them is meant
                q = {}
                for m, co in ins.t.items():
                    n = (co + r.stride // 2) // r.stride
                    if n:
                        q[m] = n
                q = P(q)
                if q.const() is None and not st.entails_eq(q) and not st.entails(q - 1) and not st.entails(-q - 1):
                    for t in (st.assume(q - 1), st.assume_eq(q), st.assume(-q - 1)):
                        if t is not None:
                            out += s.resolve(t, r, log, o, size, isptr, depth + 1)
                    return out
            a, rest = st.split(lo_out)
            if a:
                out += s.resolve(a, r, prev, o, size, isptr, depth + 1)
            if rest:
                b, rest = rest.split(hi_out)
                if b:
                    out += s.resolve(b, r, prev, o, size, isptr, depth + 1)
                if rest:
                    c = rest.assume(ins)
                    c2 = c and c.assume(inh)
                    if c2:
                        out += s.from_write(c2, w, ins, size, isptr, depth)
                    for bad in (rest.assume(-ins - 1), c and c.assume(-inh - 1)):
                        if bad:
                            out.append((bad, s.fresh("straddle", 0, (1 << (8 * size)) - 1, imprecise=True)))
            return out
        return s.initial(st, r, o, size, isptr)

    def from_write(s, st, w, d, size, isptr, depth):
        """value at displacement d inside write w"""
        if w.kind == "store":
            n = w.len.const()
            if n == size:
                return [(st, w.val)]       # contained, so d = 0
            for c in [d.const()] if d.const() is not None else range(n - size + 1 if n is not None else 0):
                if st.entails_eq(d - c):
                    return s.subcell(st, (n, w.val), c, size)
            return [(st, s.fresh("sub", 0, (1 << (8 * size)) - 1, imprecise=True))]
        if w.kind == "set":
            c = w.val.const()
            if c is not None:
                v = 0
                for i in range(size):
                    v |= c << (8 * i)
                return [(st, NULLP if (isptr and v == 0) else K(v))]
            if size == 1:
                return [(st, w.val)]
            return [(st, s.fresh("set", 0, (1 << (8 * size)) - 1, imprecise=True))]
        if w.kind == "copy":
            sr, so, slog, scells = w.val
            o = so + d
            if sr.mode == "cells":
                c = o.const()
                if c is None:
                    c = s.pinned(st, o, scells, size)
                if c is not None and scells is not None:
                    cell = scells.get(c)
                    if cell is not None and cell[0] == size:
                        return [(st, cell[1])]
                    for co, (sz, v) in scells.items():
                        if co <= c and c + size <= co + sz:
                            return s.subcell(st, (sz, v), c - co, size)
                        if co < c + size and c < co + sz:
                            return [(st, s.fresh("partial", 0, (1 << (8 * size)) - 1, imprecise=True))]
                elif scells:
                    return [(st, s.fresh("cells", 0, (1 << (8 * size)) - 1, imprecise=True))]
            return s.resolve(st, sr, slog, o, size, isptr, depth + 1)
        if w.kind == "opaque":
            hi = (1 << (8 * size)) - 1
            return [(st, V(term("opq", (w.x, w.val, d, size), 0, hi)))]
        if w.kind == "freed":
            return [(st, UNDEF)]
        raise Imprecise("write kind " + w.kind)


    def loop_index(s, st, o, off, j, size, ln):
        """solve o in off(j) .. : returns (jexpr, displacement) or None.  off = a + c*j"""
        # split off into a + c*j
        a, c = ZERO, ZERO
        for m, co in off.t.items():
            n = m.count(j.id)
            if n == 0:
                a = a + P({m: co})
            elif n == 1:
                mm = list(m)
                mm.remove(j.id)
                c = c + P({tuple(mm): co})
            else:
                return None
        for x in off.atoms():
            if x != j.id and j.id in deep_atoms(P({(x,): 1})):
                return None
        if not c.t:
            return None
        d = o - a
        cc = c.const()
        if cc is not None:
            neg = cc < 0
            cc = abs(cc)
            q = P({m: v // cc for m, v in d.t.items() if v % cc == 0})
            rem = P({m: v for m, v in d.t.items() if v % cc})
            k = rem.t.get((), 0)
            if rem.const() is not None:
                q = q + (k // cc if k else 0)
                return -q if neg else q, K(k % cc)
            if cc == 1:
                return -d if neg else d, ZERO
            q, rem = q + k // cc, rem - k + k % cc
            if st.entails(rem) and st.entails(K(cc - 1) - rem):
                return -q if neg else q, rem
            return None
        ca = c.single()
        if ca is not None:
            q, rem = {}, {}
            for m, v in d.t.items():
                if ca.id in m:
                    mm = list(m)
                    mm.remove(ca.id)
                    q[tuple(mm)] = v
                else:
                    rem[m] = v
            q, rem = P(q), P(rem)
            if st.entails(rem) and st.entails(c - 1 - rem):
                return q, rem
            # rem may be -1-based: try one lower
            if st.entails(rem + c) and st.entails(-rem - 1):
                return q - 1, rem + c
        return None

    def resolve_loop(s, st, r, prev, w, o, size, isptr, depth):
        """read through the writes of completed loop iterations; None = skip (no effect)"""
        le = w.x
        ents = []
        for pi, path in enumerate(le.paths):
            for e in path.writes.get(r.id, ()):
                ents.append((pi, e))
        if not ents:
            return None
        if st.entails(-le.count):
            return None
        # all writes must have solvable positions
        groups = []         # [(iteration, [(path, entry, displacement)])]
        for pi, e in ents:
            if e.kind == "loop" or e.kind == "havoc":
                return [(st, s.fresh("nestloop", 0, (1 << (8 * size)) - 1, imprecise=True))]
            sol = s.loop_index(st, o, e.off, le.j, size, e.len)
            if sol is None:
                # disjoint from every iteration's range?
                t = st.assume(V(le.j))
                t = t and t.assume(le.count - 1 - V(le.j))
                if t is None or t.entails(e.off - o - size) or t.entails(o - e.off - e.len):
                    continue
                return [(st, s.fresh("loopread", 0, (1 << (8 * size)) - 1, imprecise=True))]
            q, d = sol
            if st.entails(d - subst(e.len, {le.j.id: q})):
                continue            # behind the written part
            for g in groups:
                if g[0] == q:
                    g[1].append((pi, e, d))
                    break
            else:
                groups.append((q, [(pi, e, d)]))
        if not groups:
            return None
        # later iterations hide earlier ones
        for i, g in enumerate(groups):
            for h in groups[:i]:
                if (g[0] - h[0]).const() is None:
                    return [(st, s.fresh("loopread", 0, (1 << (8 * size)) - 1, imprecise=True))]
        g0 = groups[0][0]
        groups.sort(key=lambda g: -(g[0] - g0).const())
        return s.loop_groups(st, r, prev, le, groups, 0, o, size, isptr, depth)

    def loop_groups(s, st, r, prev, le, groups, gi, o, size, isptr, depth):
        if gi == len(groups):
            return s.resolve(st, r, prev, o, size, isptr, depth + 1)
        out = []
        q, sols = groups[gi]
        nxt = lambda t: s.loop_groups(t, r, prev, le, groups, gi + 1, o, size, isptr, depth)
        # not covered: q < 0 or q >= count
        a, rest = st.split(q)
        if rest:
            out += nxt(rest)
        if a:
            inn, outt = a.split(le.count - 1 - q)
            if outt:
                out += nxt(outt)
            if inn:
                mp = {le.j.id: q}
                for pi, path in enumerate(le.paths):
                    t = inn
                    for c in path.conds:
                        t = t and t.assume(subst(c, mp))
                    for c in path.diseq:
                        t = t and t.assume_ne(subst(c, mp))
                    if t is None:
                        continue
                    es = [x for x in sols if x[0] == pi]
                    if not es:
                        out += nxt(t)
                        continue
                    e, d = es[-1][1], es[-1][2]
                    if len(es) > 1 and any(x[2] != d for x in es):
                        out.append((t, s.fresh("loopread", 0, (1 << (8 * size)) - 1, imprecise=True)))
                        continue
                    if not (t.entails(d) and t.entails(subst(e.len, mp) - d - size)):
                        out.append((t, s.fresh("loopread", 0, (1 << (8 * size)) - 1, imprecise=True)))
                        continue
                    e2 = subst_w(e, mp)
                    out += s.from_write(t, e2, d, size, isptr, depth + 1)
        return out

    def initial(s, st, r, o, size, isptr):
        """initial (entry-time) content of a region"""
        if r.bytes is not None:
            c = o.const()
            if c is not None and 0 <= c and c + size <= len(r.bytes):
                return [(st, K(int.from_bytes(r.bytes[c:c + size], "little")))]
        if r.kind == "global" and r.bytes is None and getattr(r, "ginit", None) is not None and not isinstance(r.ginit, CZero):
            c = o.const()
            if c is not None:
                v = s.const_init(r.ginit, r.gtype, c)
                if v is not None and leaf(r.gtype, c) not in (None, size):
                    bs = [s.const_init(r.ginit, r.gtype, c + i) if leaf(r.gtype, c + i) == 1 else None for i in range(size)]
                    v = K(sum(x.const() << (8 * i) for i, x in enumerate(bs))) if all(isinstance(x, P) and x.const() is not None for x in bs) else None
                if v is not None:
                    if isptr and isinstance(v, P) and v.const() == 0:
                        v = NULLP
                    return [(st, v)]
        if r.kind == "global" and o.const() is None and r.size is not None and r.size.const() is not None \
                and (r.bytes is not None or getattr(r, "ginit", None) is not None) and r.init_content != "zero":
            if s.table_atoms and r.bytes is not None:
                # constant table at a variable position: a term that stands for the table entry
                for m in list(o.t):
                    # positions are kept in their simplest form
                    if len(m) == 1 and ATOMS[m[0]].lo == 0 and st.entails(-V(ATOMS[m[0]])):
                        o = o - V(ATOMS[m[0]]) * o.t[m]
                if o.const() is None:
                    n = r.size.const() - size
                    c = next((k for k in range(n + 1) if st.entails_eq(o - k)), None) if n < 8 else None
                    if c is not None:
                        o = K(c)
                if o.const() is not None:
                    return s.initial(st, r, o, size, isptr)
                v = ZERO
                for i in range(size):
                    v = v + V(term("tab", (r, o + i), min(r.bytes), max(r.bytes))) * (1 << (8 * i))
                return [(st, v)]
            # constant table at a variable position: one case per position
            n = r.size.const() - size
            if 0 <= n <= 256:
                out = []
                for k in range(0, n + 1):
                    t = st.assume_eq(o - k)
                    if t is not None:
                        out += s.initial(t, r, K(k), size, isptr)
                if out and not any(u.entails(o - n - 1) for u in (st,)):
                    return out
        if r.init_content == "zero":
            return [(st, NULLP if isptr else K(0))]
        for ko, ks, kv in r.known:
            if ks == size and (ko == o or st.entails_eq(ko - o)):
                return [(st, kv)]
        if r.term is not None and size == 1:
            d = o - r.term
            if st.entails_eq(d):
                return [(st, ZERO)]
            if r.cstr and st.entails(-d - 1):
                v = V(s.init_atom(st, r, o, size))
                st = st.assume(v - 1)
                return [(st, v)] if st else []
            if not (st.entails(d - 1) or st.entails(-d - 1)):
                out = []
                lt, ge = st.split(-d - 1)
                if lt:
                    v = V(s.init_atom(lt, r, o, size))
                    if r.cstr:
                        lt = lt.assume(v - 1)
                    if lt:
                        out.append((lt, v))
                if ge:
                    eq = ge.assume_eq(d)
                    if eq:
                        out.append((eq, ZERO))
                    gt = ge.assume(d - 1)
                    if gt:
                        out.append((gt, V(s.init_atom(gt, r, o, size))))
                return out
        if r.policy is not None:
            v = r.policy(s, st, r, o, size, isptr)
            if v is not None:
                return v if isinstance(v, list) else [(st, v)]
        if r.init_content == "undef":
            return [(st, UNDEF)]
        if isptr:
            key = (o, "p")
            x = r.cache.get(key)
            if x is None:
                x = Region("*%s[%r]" % (r.name, o), None, mode="array", maybe_null=True, kind="opaque")
                x.imprecise = True
                r.cache[key] = x
            return [(st, Ptr(x))]
        return [(st, V(s.init_atom(st, r, o, size)))]

    def init_atom(s, st, r, o, size):
        # canonical atom: reuse an existing one whose offset is provably equal
        lst = r.cache.setdefault(("c", size), [])
        for (ko, a) in lst:
            if ko == o:
                return a
        for (ko, a) in lst[-12:]:
            if (ko - o).const() is None and not (ko.atoms().isdisjoint(o.atoms()) and ko.const() is None and o.const() is None and False) \
                    and st.entails_eq(ko - o):
                return a
        kind = "init" if r.init_content == "atom" else r.init_content
        a = term(kind, (r, o, size), 0, (1 << (8 * size)) - 1, imprecise=r.imprecise)
        lst.append((o, a))
        return a

    def memcpy(s, st, d, sr, n, inst, move=False):
        """model of memcpy/memmove: list of states"""
        out = []
        if isinstance(n, P) and n.const() == 0:
            return [st]
        z, nz = st.split(n - 1) if n.const() is None else (st, None)
        if nz:
            out.append(nz)
        if not z:
            return out
        for t, r2, o2 in s.addr(z, sr, n, inst, False, "copy source"):
            for u, r1, o1 in s.addr(t, d, n, inst, True, "copy destination"):
                u = u.fork()
                if not move and r1 is r2:
                    if not (u.entails(o1 - o2 - n) or u.entails(o2 - o1 - n)):
                        if not (u.entails_eq(o1 - o2)):
                            s.issue("overlap", "memcpy with overlapping ranges in %s: dst %r src %r len %r" % (r1.name, o1, o2, n), u, inst)
                c1, c2, cn = o1.const(), o2.const(), n.const()
                if r1.mode == "cells" and cn is not None and c1 is not None:
                    if r2.mode == "cells" and c2 is not None:
                        src = u.cells.get(r2.id, {})
                        dst = dict(u.cells.get(r1.id, {}))
                        for co in list(dst):
                            if co < c1 + cn and c1 < co + dst[co][0]:
                                del dst[co]
                        mv = {co: x for co, x in src.items() if c2 <= co and co + x[0] <= c2 + cn}
                        cov = sum(x[0] for x in mv.values())
                        for co, x in mv.items():
                            dst[co - c2 + c1] = x
                        u.cells[r1.id] = dst
                        if cov < cn and (r2.id in u.logs or r2.bytes is not None or r2.kind == "global"):
                            # materialise in 8/4/1 steps
                            pos = 0
                            while pos < cn:
                                if (c2 + pos) in src:
                                    pos += src[c2 + pos][0]
                                    continue
                                stp = 8 if pos + 8 <= cn and (c2 + pos) % 8 == 0 else 1
                                if r2.kind == "global" and r2.bytes is None and getattr(r2, "gtype", None) is not None:
                                    stp = leaf(r2.gtype, c2 + pos)
                                    if not stp or pos + stp > cn:
                                        pos += 1
                                        continue
                                rr = s.read(u, r2, K(c2 + pos), stp, stp == 8, inst)
                                if len(rr) == 1:
                                    u = rr[0][0].fork()
                                    u.setcell(r1, c1 + pos, stp, rr[0][1])
                                pos += stp
                        out.append(u)
                        continue
                    if cn in (1, 2, 4, 8):
                        for u2, v in s.read(u, r2, o2, cn, False, inst):
                            u2 = u2.fork()
                            u2.setcell(r1, c1, cn, v)
                            out.append(u2)
                        continue
                s.range_write(u, "copy", r1, o1, n, (r2, o2, u.logs.get(r2.id), u.cells.get(r2.id)))
                out.append(u)
        return out

    def memset(s, st, d, v, n, inst):
        out = []
        z, nz = st.split(n - 1) if n.const() is None else ((st, None) if n.const() else (None, st))
        if nz:
            out.append(nz)
        if z:
            for t, r, o in s.addr(z, d, n, inst, True, "fill"):
                t = t.fork()
                s.range_write(t, "set", r, o, n, v)
                out.append(t)
        return out

    # ------------------------------------------------------------ calls
    def call(s, st, callee, args, inst):
        """[(state, value)]"""
        s.ncall += 1
        if isinstance(callee, Ptr):
            r = callee.r
            out = []
            for t, isn in s.isnull(st, callee):
                if isn:
                    s.issue("nullcall", "call through a null function pointer (%s)" % r.name, t, inst)
                    continue
                if r.kind == "fn":
                    if r.model is not None:
                        out += r.model(s, t, inst, args)
                    else:
                        out += s.call_named(t, r.fname, args, inst)
                else:
                    s.issue("badcall", "call through unresolved pointer %s" % r.name, t, inst, imprecise=True)
                    raise Imprecise("indirect call through %s at %s" % (r.name, s.loc(inst)))
            return out
        raise Imprecise("indirect call at %s" % s.loc(inst))

    def call_named(s, st, name, args, inst):
        if name in s.stubs:
            return s.stubs[name](s, st, inst, args)
        f = s.m.functions.get(name)
        if f is not None and not f.decl:
            return s.run_function(f, args, st, inst)
        md = s.models.get(name)
        if md is None:
            for pre, md2 in s.models.items():
                if pre.endswith("*") and name.startswith(pre[:-1]):
                    md = md2
                    break
        if md is None:
            f = std_function(name)
            if f is not None:
                return s.run_function(f, args, st, inst)
            raise Imprecise("no model for external function %s (called at %s)" % (name, s.loc(inst)))
        return md(s, st, inst, args)

    def run_function(s, f, args, st, inst=None):
        if len(s.stack) > 40 or s.stack.count(f.name) > 1:
            raise Imprecise("recursion in %s" % f.name)
        s.visited.add(f.name)
        s.stack.append(f.name)
        try:
            env = {}
            for a, v in zip(f.args, args):
                env[a.id] = v
            outs = s.run_blocks(f, f.blocks[0], None, st, env, None)
            res = []
            for o in outs:
                if o[0] == "ret":
                    res.append((o[1], o[2]))
            return s.merge(res)
        finally:
            s.stack.pop()

    def merge(s, res):
        """drop duplicate exits; keep partitions otherwise"""
        if len(res) < 2:
            return res
        out, seen = [], {}
        for st, v in res:
            key = (v if isinstance(v, (P, Ptr)) else repr(v), frozenset(st.cons), id(st.ev), frozenset(st.diseq),
                   frozenset(st.null.items()),
                   tuple((k, id(c)) for k, c in sorted(st.cells.items())), tuple((k, id(c)) for k, c in sorted(st.logs.items())))
            if key in seen:
                continue
            seen[key] = 1
            out.append((st, v))
        return out

    def run_blocks(s, f, block, pred, st, env, loop):
        """interpret from `block`. loop = (header, blocks) when inside exec_loop's body."""
        loops = natural_loops(f)
        header = loop[0] if loop else None
        scope = loop[1] if loop else None
        work = [(block, pred, st, env, True)]
        outs = []
        while work:
            b, pr, st, env, first = work.pop()
            if scope is not None and b not in scope:
                outs.append(("exit", b, pr, st, env))
                continue
            if b is header and not first:
                outs.append(("back", pr, st, env))
                continue
            if b in loops and not (b is header and first):
                for o in s.exec_loop(f, b, loops[b], pr, st, env):
                    if o[0] == "ret":
                        outs.append(o)
                    else:
                        work.append((o[1], o[2], o[3], o[4], False))
                continue
            s.nstates += 1
            if s.nstates > s.BUDGET:
                if s.unroll:
                    s.dropped += 1
                    return outs
                raise Imprecise("too many partitions")
            if len(work) + len(outs) > s.MAXSTATES:
                if s.unroll:
                    s.dropped += 1
                    return outs
                raise Imprecise("too many partitions in %s" % f.name)
            # phis
            if not (b is header and first):
                env = dict(env)
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    for pb, pv in i.x:
                        if pb is pr:
                            new[i.id] = s.val(pv, env)
                            break
                env.update(new)
            try:
                nexts = s.exec_block(f, b, st, env, outs)
            except Imprecise:
                if not s.unroll:
                    raise
                s.dropped += 1
                continue
            for nb, nst, nenv in nexts:
                work.append((nb, b, nst, nenv, False))
        return outs

    def exec_block(s, f, b, st, env, outs, start=0):
        """returns list of (next block, state, env)"""
        res = []
        n = len(b.insts)
        stack = [(start, st, dict(env))]
        while stack:
            i, st, env = stack.pop()
            while True:
                inst = b.insts[i]
                op = inst.op
                if op == "phi":
                    i += 1
                    continue
                s.ninst += 1
                if op == "br":
                    if not inst.ops:
                        res.append((b.succs[0], st, env))
                        break
                    c = s.val(inst.ops[0], env)
                    c = s.num(st, c, inst, 1)
                    k = c.const()
                    if k is not None:
                        res.append((b.succs[0] if k else b.succs[1], st, env))
                        break
                    z, nz = st.split_eq(c)
                    if nz:
                        res.append((b.succs[0], nz, env))
                    if z:
                        res.append((b.succs[1], z, env))
                    break
                if op == "switch":
                    c = s.num(st, s.val(inst.ops[0], env), inst)
                    cur = st
                    for cv, sb in zip(inst.x, b.succs[1:]):
                        if cur is None:
                            break
                        e, ne = cur.split_eq(c - cv)
                        if e:
                            res.append((sb, e, env))
                        cur = ne
                    if cur is not None:
                        res.append((b.succs[0], cur, env))
                    break
                if op == "ret":
                    outs.append(("ret", st, s.val(inst.ops[0], env) if inst.ops else None))
                    break
                if op == "unreachable":
                    break
                rs = s.exec_inst(f, inst, st, env)
                if not rs:
                    break
                if len(rs) == 1:
                    st, v = rs[0]
                    env[inst.id] = v
                    i += 1
                    continue
                for st2, v in rs[1:]:
                    e2 = dict(env)
                    e2[inst.id] = v
                    stack.append((i + 1, st2, e2))
                st, v = rs[0]
                env = dict(env)
                env[inst.id] = v
                i += 1
        return res

    def exec_inst(s, f, inst, st, env):
        """[(state, value)]"""
        op = inst.op
        val = s.val
        if op == "load":
            return s.load(st, val(inst.ops[0], env), inst.type.size, inst.type.kind == "ptr", inst)
        if op == "store":
            v = val(inst.ops[0], env)
            return [(t, None) for t in s.store(st, val(inst.ops[1], env), v, inst.x.size, inst)]
        if op == "gep":
            p = val(inst.ops[0], env)
            off, var = inst.x
            if p is UNDEF:
                s.issue("uninit", "address computed from an uninitialised pointer", st, inst)
                return []
            add = K(off)
            rs = [(st, add)]
            for v, sc in var:
                x = val(v, env)
                nrs = []
                for t, a in rs:
                    y = s.num(t, x, inst)
                    w = 64
                    if y.const() is not None:
                        c = y.const()
                        y = K(c - (1 << 64) if c >= 1 << 63 else c)
                    elif not t.entails(K((1 << 63) - 1) - y):
                        if t.entails(y - (1 << 63)):
                            y = y - (1 << 64)
                    nrs.append((t, a + y * sc))
                rs = nrs
            out = []
            for t, a in rs:
                if isinstance(p, Ptr):
                    out.append((t, Ptr(p.r, p.o + a)))
                else:
                    out.append((t, p + a))
            return out
        if op == "icmp":
            return s.icmp(st, inst, val(inst.ops[0], env), val(inst.ops[1], env))
        if op == "call":
            return s.do_call(f, inst, st, env)
        if op == "alloca":
            s.nfresh += 1
            ty = inst.x
            r = Region("%s.%s#%d" % (f.name, "local", s.nfresh), K(ty.size), mode="array" if ty.kind == "array" else "cells", kind="local")
            r.init_content = "undef"
            n = val(inst.ops[0], env)
            if isinstance(n, P) and n.const() != 1:
                r.size = n * ty.size
                r.mode = "array"
            r.atype = ty
            return [(st, Ptr(r))]
        if op in ("add", "sub", "mul"):
            a, b = val(inst.ops[0], env), val(inst.ops[1], env)
            w = inst.type.width
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return s.wrap(st, a.o - b.o, w)
            if op == "add" and isinstance(b, Ptr):
                a, b = b, a
            a, b = s.num(st, a, inst, w), s.num(st, b, inst, w)
            if op == "add":
                # subtraction of a constant written as addition of its complement
                cb = b.const()
                if cb is not None and cb > (1 << (w - 1)):
                    return s.wrap(st, a + (cb - (1 << w)), w, inst)
                return s.wrap(st, a + b, w, inst)
            if op == "sub":
                return s.wrap(st, a - b, w, inst)
            cb, ca = b.const(), a.const()
            if cb is not None and cb >= (1 << (w - 1)):
                return s.wrap(st, -(a * ((1 << w) - cb)), w, inst)
            return s.wrap(st, a * b, w, inst)
        if op in ("and", "or", "xor"):
            w = inst.type.width
            a, b = val(inst.ops[0], env), val(inst.ops[1], env)
            return s.logic(st, op, s.num(st, a, inst, w), s.num(st, b, inst, w), w, inst)
        if op == "zext":
            return [(st, s.num(st, val(inst.ops[0], env), inst))]
        if op == "sext":
            sw = inst.ops[0].type.width if hasattr(inst.ops[0], "type") else inst.ops[0].width
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst, sw)
            out = []
            for t, v in s.signed(st, a, sw):
                if t.entails(v):
                    out.append((t, v))
                else:
                    out.append((t, v + (1 << w)))
            return out
        if op == "trunc":
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst)
            if st.entails(K((1 << w) - 1) - a):
                return [(st, a)]
            t, q, r = s.divmod(st, a, 1 << w)
            return [(t, r)] if t else []
        if op in ("udiv", "urem"):
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst, w)
            d = s.num(st, val(inst.ops[1], env), inst, w)
            c = d.const()
            if c is not None:
                if c == 0:
                    s.issue("divzero", "division by zero", st, inst)
                    return []
                t, q, r = s.divmod(st, a, c)
                return [(t, q if op == "udiv" else r)] if t else []
            z, nz = st.split(d - 1)
            if nz:
                s.issue("divzero", "division by possibly zero value %r" % d, nz, inst)
            if not z:
                return []
            q = V(term("divs", (a, d), 0, U64))
            r = V(term("mods", (a, d), 0, U64))
            z = z.assume_eq(a - d * q - r)
            z = z and z.assume(d - 1 - r)
            z = z and z.assume(a - q)
            return [(z, q if op == "udiv" else r)] if z else []
        if op in ("sdiv", "srem"):
            w = inst.type.width
            out = []
            for t, a in s.signed(st, s.num(st, val(inst.ops[0], env), inst, w), w):
                for u, d in s.signed(t, s.num(t, val(inst.ops[1], env), inst, w), w):
                    c = d.const()
                    if c is None or c == 0:
                        raise Imprecise("signed division by non-constant at %s" % s.loc(inst))
                    for pos, sg in ((u.assume(a), 1), (u.assume(-a - 1), -1)):
                        if pos is None:
                            continue
                        t2, q, r = s.divmod(pos, a * sg, abs(c))
                        if t2 is None:
                            continue
                        v = q * (sg if c > 0 else -sg) if op == "sdiv" else r * sg
                        out += s.wrap(t2, v, w, inst)
            return out
        if op == "shl":
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst, w)
            b = s.num(st, val(inst.ops[1], env), inst, w)
            out = []
            for t, k in s.smallcases(st, b, w, inst):
                out += s.wrap(t, a * (1 << k), w, inst)
            return out
        if op == "lshr":
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst, w)
            b = s.num(st, val(inst.ops[1], env), inst, w)
            out = []
            for t, k in s.smallcases(st, b, w, inst):
                t2, q = s.shr(t, a, k)
                if t2:
                    out.append((t2, q))
            return out
        if op == "ashr":
            w = inst.type.width
            a = s.num(st, val(inst.ops[0], env), inst, w)
            b = s.num(st, val(inst.ops[1], env), inst, w)
            out = []
            for t, k in s.smallcases(st, b, w, inst):
                for u, v in s.signed(t, a, w):
                    if u.entails(v):
                        t2, q = s.shr(u, v, k)
                        if t2:
                            out.append((t2, q))
                    else:
                        # floor((v)/2^k), v negative
                        t2, q, r = s.divmod(u, v, 1 << k)
                        if t2:
                            out += s.wrap(t2, q, w, inst)
            return out
        if op == "select":
            c = s.num(st, val(inst.ops[0], env), inst, 1)
            a, b = val(inst.ops[1], env), val(inst.ops[2], env)
            k = c.const()
            if k is not None:
                return [(st, a if k else b)]
            z, nz = st.split_eq(c)
            return [(t, v) for t, v in ((nz, a), (z, b)) if t]
        if op == "ptrtoint":
            p = val(inst.ops[0], env)
            if isinstance(p, Ptr) and p.r.maybe_null:
                return [(t, K(0) if n and p.o.const() == 0 else s.num(t, p, inst)) for t, n in s.isnull(st, p)]
            return [(st, s.num(st, p, inst))]
        if op == "inttoptr":
            v = val(inst.ops[0], env)
            if isinstance(v, P):
                if v.const() == 0:
                    return [(st, NULLP)]
                for a in v.atoms():
                    if a in s.addr_regions and v.t.get((a,)) == 1:
                        return [(st, Ptr(s.addr_regions[a], v - V(ATOMS[a])))]
                return [(st, v)]
            return [(st, v)]
        if op in ("bitcast", "addrspacecast", "freeze"):
            return [(st, val(inst.ops[0], env))]
        if op == "extractvalue":
            v = val(inst.ops[0], env)
            if isinstance(v, Agg):
                return [(st, v.v[inst.x[0]])]
            return [(st, s.fresh("agg", 0, U64, imprecise=True))]
        if op == "insertvalue":
            v = val(inst.ops[0], env)
            n = list(v.v) if isinstance(v, Agg) else [UNDEF] * 8
            n[inst.x[0]] = val(inst.ops[1], env)
            return [(st, Agg(n))]
        if op in ("atomicrmw", "cmpxchg") and not s.in_atomic:
            s.in_atomic = True
            try:
                return s.exec_inst(f, inst, st, env)
            finally:
                s.in_atomic = False
        if op == "atomicrmw":
            p = val(inst.ops[0], env)
            v = val(inst.ops[1], env)
            w = inst.type.width if inst.type.kind == "int" else 64
            out = []
            for t, old in s.load(st, p, inst.type.size, inst.type.kind == "ptr", inst):
                kind = inst.x[0]
                if kind == "xchg":
                    nv = [(t, v)]
                elif kind == "add":
                    nv = s.wrap(t, s.num(t, old, inst) + s.num(t, v, inst), w)
                elif kind == "sub":
                    nv = s.wrap(t, s.num(t, old, inst) - s.num(t, v, inst), w)
                elif kind in ("and", "or", "xor"):
                    nv = s.logic(t, kind, old, v, w, inst)
                else:
                    nv = [(t, s.fresh("rmw", 0, (1 << w) - 1, imprecise=True))]
                for t2, x in nv:
                    for t3 in s.store(t2, p, x, inst.type.size, inst):
                        t3 = t3.fork()
                        s.emit(t3, "atomic", kind, [p, v], old, inst, x=inst.x)
                        out.append((t3, old))
            return out
        if op == "cmpxchg":
            p, e, nv = [val(o, env) for o in inst.ops[:3]]
            ty = inst.type.elems[0]
            out = []
            for t, old in s.load(st, p, ty.size, ty.kind == "ptr", inst):
                if isinstance(old, Ptr) or isinstance(e, Ptr):
                    eq = s.ptr_eq(t, old, e)
                else:
                    a, b = t.split_eq(old - e)
                    eq = [(x, y) for x, y in ((a, True), (b, False)) if x]
                for u, same in eq:
                    if same:
                        for u2 in s.store(u, p, nv, ty.size, inst):
                            u2 = u2.fork()
                            s.emit(u2, "atomic", "cmpxchg", [p, e, nv], old, inst, x=(True,) + inst.x)
                            out.append((u2, Agg([old, K(1)])))
                    else:
                        u = u.fork()
                        s.emit(u, "atomic", "cmpxchg", [p, e, nv], old, inst, x=(False,) + inst.x)
                        out.append((u, Agg([old, K(0)])))
            return out
        if op == "fence":
            return [(st, None)]
        raise Imprecise("unsupported instruction %s at %s" % (op, s.loc(inst)))

    def smallcases(s, st, b, w, inst):
        c = b.const()
        if c is not None:
            if c >= w:
                s.issue("shift", "shift amount %d not below the width %d" % (c, w), st, inst)
                return []
            return [(st, c)]
        hi = None
        for h in (0, 1, 3, 7, 15, 31, 63):
            if h < w and st.entails(K(h) - b):
                hi = h
                break
        if hi is None:
            st2 = st.assume(b - w)
            if st2 is not None:
                s.issue("shift", "shift amount %r may reach the width %d" % (b, w), st, inst, K(w - 1) - b)
            hi = w - 1
        out = []
        for k in range(hi + 1):
            t = st.assume_eq(b - k)
            if t:
                out.append((t, k))
        return out

    def icmp(s, st, inst, a, b):
        pred = inst.x
        o0 = inst.ops[0]
        ty = o0.type if hasattr(o0, "type") else (inst.ops[1].type if hasattr(inst.ops[1], "type") else None)
        if a is UNDEF or b is UNDEF:
            s.issue("uninit", "comparison of an uninitialised value", st, inst)
            return [(st.fork(), ONE), (st.fork(), ZERO)]
        isp = isinstance(a, Ptr) or isinstance(b, Ptr)
        if isp and pred in ("eq", "ne"):
            return [(t, K(int(v == (pred == "eq")))) for t, v in s.ptr_eq(st, a, b)]
        if isp:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                a, b = a.o, b.o
                pred = pred.replace("s", "u") if pred[0] == "s" else pred
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and not (a.r is NULLR or b.r is NULLR):
                # unrelated objects: order unknown but disjoint
                t = V(term("below", (a.r, b.r), 0, 1))
                x, y = st.split(t - 1)
                lt = pred in ("ult", "ule")
                return [(q, K(v)) for q, v in ((x, int(lt)), (y, int(not lt))) if q]
            else:
                a, b = s.num(st, a, inst), s.num(st, b, inst)
        if pred in ("eq", "ne"):
            x, y = st.split_eq(s.num(st, a, inst) - s.num(st, b, inst))
            t = 1 if pred == "eq" else 0
            return [(q, K(v)) for q, v in ((x, t), (y, 1 - t)) if q]
        a, b = s.num(st, a, inst), s.num(st, b, inst)
        if pred[0] == "s":
            w = ty.width if ty is not None and ty.kind == "int" else 64
            out = []
            for t, x in s.signed(st, a, w):
                for u, y in s.signed(t, b, w):
                    out += s.cmp(u, pred[1:], x, y)
            return out
        return s.cmp(st, pred[1:], a, b)

    def cmp(s, st, op, a, b):
        p = {"gt": a - b - 1, "ge": a - b, "lt": b - a - 1, "le": b - a}[op]
        x, y = st.split(p)
        return [(q, K(v)) for q, v in ((x, 1), (y, 0)) if q]

    def do_call(s, f, inst, st, env):
        c = inst.x
        if isinstance(c, CGlobal):
            n = c.name
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                return [(st, None)]
            args = [s.val(o, env) for o in inst.ops]
            if n in s.m.functions:
                return s.call_named(st, n, args, inst)
            if n == "<asm>":
                raise Imprecise("inline assembly at %s" % s.loc(inst))
            raise Imprecise("call of %s" % n)
        args = [s.val(o, env) for o in inst.ops]
        callee = s.val(c, env)
        return s.call(st, callee, args, inst)

    # ------------------------------------------------------------ loops
    def exec_loop(s, f, h, blocks, pred, st, env):
        u = s.try_unroll(f, h, blocks, pred, st, env)
        if u is not None:
            return u
        if s.unroll:
            return s.peel(f, h, blocks, pred, st, env)
        if s.peel_first:
            # the first iteration is analysed on its own
            outs = []
            for o in s.run_blocks(f, h, None, st, s.enter_header(h, pred, env), (h, blocks)):
                outs += s.phases(f, h, blocks, o[1], o[2], o[3]) if o[0] == "back" else [o]
            return outs
        return LoopSummary(s, f, h, blocks, pred, st, env).run()

    def phases(s, f, h, blocks, pred, st, env):
        if s.loop_cut is None:
            return LoopSummary(s, f, h, blocks, pred, st, env).run()
        cut, outs = s.loop_cut - 1, []
        a, b = st.split(cut)
        if b:
            outs += LoopSummary(s, f, h, blocks, pred, b, env).run()
        if a:
            for o in LoopSummary(s, f, h, blocks, pred, a, env, cut).run():
                if o[0] != "cut":
                    outs.append(o)
                    continue
                for q in s.run_blocks(f, h, None, o[1], o[2], (h, blocks)):
                    outs += LoopSummary(s, f, h, blocks, q[1], q[2], q[3]).run() if q[0] == "back" else [q]
        return outs

    def peel(s, f, h, blocks, pred, st, env):
        """refutation mode: the first iterations only, one partition per iteration (an under-approximation)"""
        outs = []
        cur = [(pred, st, env)]
        for it in range(s.unroll + 1):
            nxt = []
            for pr, t, e in cur:
                e2 = s.enter_header(h, pr, e)
                for o in s.run_blocks(f, h, None, t, e2, (h, blocks)):
                    if o[0] == "back":
                        nxt.append((o[1], o[2], o[3]))
                        if s.ranked is not None and not s.quiet:
                            s.recurs(f, h, t, e2, o)
                    else:
                        outs.append(o)
            if len(nxt) > 48:
                nxt = nxt[:24] + nxt[-24:]
            cur = nxt
            if not cur:
                break
        return outs

    PURE = {("cb", "cmp"), ("cb", "eq"), ("libc", "memcmp"), ("libc", "strlen"), ("libc", "strcmp"), ("libc", "strncmp")}

    def recurs(s, f, h, t0, e0, o):
        """an iteration that ends in the state it began with repeats for ever"""
        st = o[2]
        e1 = s.enter_header(h, o[1], o[3])
        if "approx" in st.flags:
            return
        lg = st.ev
        while lg is not t0.ev:
            e = lg[1]
            if not isinstance(e, Ev) or (e.kind, e.name) not in s.PURE and e.kind not in ("cb", "alloc"):
                return
            lg = lg[0]
        for i in h.insts:
            if i.op != "phi":
                break
            a, b = e0.get(i.id), e1.get(i.id)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is not b.r:
                    return
                a, b = a.o, b.o
            if isinstance(a, P) and isinstance(b, P):
                if a != b:
                    st = st.assume_eq(a - b)
                    if st is None:
                        return
            elif a is not b:
                return
        for rid, lg in st.logs.items():
            if lg is not t0.logs.get(rid):
                return
        for rid, cells in st.cells.items():
            b = t0.cells.get(rid) or {}
            if cells is b:
                continue
            for off, (sz, v) in cells.items():
                w = b.get(off)
                if w is not None and w[1] == v:
                    continue
                w = w[1] if w is not None else None
                if w is None:
                    a = v.single() if isinstance(v, P) else None
                    if a is None or a.kind != "init":
                        return
                elif isinstance(v, P) and isinstance(w, P):
                    st = st.assume_eq(v - w)
                    if st is None:
                        return
                else:
                    return
        if st.freed != t0.freed:
            return
        s.stuck.append((f.name, s.loc(h.insts[-1]), st, False))

    def enter_header(s, h, pred, env):
        env = dict(env)
        new = {}
        for i in h.insts:
            if i.op != "phi":
                break
            for pb, pv in i.x:
                if pb is pred:
                    new[i.id] = s.val(pv, env)
                    break
        env.update(new)
        return env

    def try_unroll(s, f, h, blocks, pred, st, env):
        """bounded trace partitioning for loops whose trip count is a decided constant"""
        save = (len(s.issues), s.nstates)
        outs = []
        cur = [(pred, st, env)]
        limit = s.unroll_limit
        try:
            for it in range(limit + 1):
                nxt = []
                for pr, t, e in cur:
                    e2 = s.enter_header(h, pr, e)
                    # the header's own decision must be determined
                    rs = s.run_blocks(f, h, None, t, e2, (h, blocks))
                    hx = [o for o in rs if o[0] == "exit" and o[2] is h]
                    back = [o for o in rs if o[0] == "back"]
                    latch_exit = [o for o in rs if o[0] == "exit" and any(x is h for x in o[2].succs)]
                    if back and (hx or latch_exit):
                        raise _NoUnroll
                    if back and it == limit:
                        raise _NoUnroll
                    for o in rs:
                        if o[0] == "back":
                            nxt.append((o[1], o[2], o[3]))
                        else:
                            outs.append(o)
                if len(nxt) > s.unroll_width:
                    raise _NoUnroll
                cur = nxt
                if not cur:
                    if s.ranked is not None and not s.quiet:
                        s.ranked.append((f.name, s.loc(h.insts[-1]), "fixed trip count"))
                    return outs
            raise _NoUnroll
        except _NoUnroll:
            del s.issues[save[0]:]
            s.nstates = save[1]
            return None


class _NoUnroll(Exception):
    pass


def subst_val(v, mp):
    if isinstance(v, P):
        return subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(subst_region(v.r, mp), subst(v.o, mp))
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    return v


def subst_region(r, mp):
    return r


def subst_w(e, mp):
    if e.kind == "copy":
        sr, so, slog, sc = e.val
        return W(e.kind, subst(e.off, mp), subst(e.len, mp), (sr, subst(so, mp), subst_log(slog, mp), sc), e.x)
    if e.kind == "loop":
        le = subst_ev(e.x, mp)
        return W("loop", e.off, e.len, e.val, le)
    x = e.x
    if e.kind == "opaque" and isinstance(x, tuple):
        x = tuple(subst_val(y, mp) if isinstance(y, (P, Ptr)) else y for y in x)
    return W(e.kind, subst(e.off, mp) if e.off is not None else None, subst(e.len, mp) if e.len is not None else None,
             subst_val(e.val, mp), x)


def subst_log(log, mp):
    """rebuild only the prefix of the log that mentions substituted atoms"""
    if log is None:
        return None
    items = []
    cur = log
    while cur is not None:
        items.append(cur)
        cur = cur[0]
    new, changed = None, False
    for node in reversed(items):
        e = node[1]
        e2 = subst_w(e, mp)
        if not changed and _same_w(e, e2):
            new = node
            continue
        changed = True
        new = (new, e2)
    return new


def _same_w(a, b):
    return a.kind == b.kind and a.off == b.off and a.len == b.len and (a.val == b.val) and (a.kind != "loop" or a.x is b.x)


def subst_ev(e, mp):
    if isinstance(e, LoopEv):
        if e.j.id in mp:
            mp = {k: v for k, v in mp.items() if k != e.j.id}
        ps = [LoopPath([subst(c, mp) for c in p.conds], [subst(c, mp) for c in p.diseq], [subst_ev(x, mp) for x in p.events],
                       {r: [subst_w(w, mp) for w in ws] for r, ws in p.writes.items()}) for p in e.paths]
        return LoopEv(e.j, subst(e.count, mp), ps, e.loc, e.fn)
    return Ev(e.kind, e.name, [subst_val(a, mp) for a in e.args], subst_val(e.ret, mp), e.loc, e.fn,
              subst_val(e.x, mp) if isinstance(e.x, (P, Ptr, tuple)) else e.x)


class LoopSummary:
    def __init__(s, I, f, h, blocks, pred, st, env, cut=None):
        s.cut = cut
        s.I, s.f, s.h, s.blocks, s.pred, s.st0 = I, f, h, blocks, pred, st
        s.env0 = env
        s.phis = [i for i in h.insts if i.op == "phi"]
        e = I.enter_header(h, pred, env)
        s.einit = e
        s.init = {("phi", p.id): e[p.id] for p in s.phis}
        s.width = {("phi", p.id): (p.type.width if p.type.kind == "int" else 0) for p in s.phis}
        # lv -> ('aff', step) | ('var', gen value) | ('inv',); header values are first assumed to come back unchanged
        s.kind = {lv: ("inv",) for lv in s.init}
        s.k = atom("k%d" % len(ATOMS), 0, U64, kind="loopk")
        s.gen = {}
        s.cells = {}     # lv ('cell', region, off) -> size
        s.hav = set()    # regions whose log is modified in the loop
        s.regs = {}
        s.inv = []
        s.lastpaths = None
        s.genreg = {}
        s.symname = {}
        for p in s.phis:
            s.symname[("phi", p.id)] = "v%d" % p.id
        # loop variables compared as signed numbers are tracked by their signed value
        s.sgn = set()
        use = set()
        byid = {}
        for b in blocks:
            for i in b.insts:
                byid[i.id] = i
                if i.op == "icmp" and isinstance(i.x, str) and i.x[0] == "s":
                    use |= {id(o) for o in i.ops}
        for _ in range(2):
            for i in byid.values():
                if id(i) in use and i.op in ("add", "sub"):
                    use |= {id(o) for o in i.ops}
        for p in s.phis:
            if id(p) in use and p.type.kind == "int":
                ini = s.init[("phi", p.id)]
                if isinstance(ini, P):
                    r = I.signed(st, ini, p.type.width)
                    if len(r) == 1:
                        s.sgn.add(("phi", p.id))
                        s.init[("phi", p.id)] = r[0][1]

    def lvs(s):
        return list(s.init)

    def generic(s, lv):
        """generic value of loop variable lv at iteration k"""
        k = s.kind.get(lv)
        ini = s.init[lv]
        if k is None or k[0] == "var":
            g = s.gen.get(lv)
            if g is None:
                g = s.gen[lv] = s.mkvar(lv)
            return g
        if k[0] == "inv":
            return ini
        step = k[1]
        if isinstance(ini, Ptr):
            return Ptr(ini.r, ini.o + step * V(s.k))
        return ini + step * V(s.k)

    def mkvar(s, lv):
        ini = s.init[lv]
        I = s.I
        nm = s.symname.get(lv, "cell")
        if isinstance(ini, Ptr) or ini is UNDEF and s.width.get(lv) == 0:
            k = s.kind.get(lv)
            if isinstance(ini, Ptr) and k is not None and k[0] == "var" and k[1] == "sameregion":
                return Ptr(ini.r, s.lvsym(nm + "off", -(1 << 62), 1 << 62))
            r = Region("%s@loop" % nm, None, mode="cells", maybe_null=True, kind="loopptr")
            tmpl = k[1] if (k is not None and len(k) > 1 and isinstance(k[1], Region)) else (ini.r if isinstance(ini, Ptr) else None)
            if tmpl is not None and tmpl.policy is not None:
                r.policy = tmpl.policy
                r.size = tmpl.size
                r.known = tmpl.known
                r.tag = tmpl.tag
                r.mode = tmpl.mode
            else:
                r.imprecise = True
            return Ptr(r)
        w = s.width.get(lv) or 64
        if lv in s.sgn:
            return s.lvsym(nm, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return s.lvsym(nm, 0, (1 << w) - 1)

    def lvsym(s, nm, lo, hi):
        # depends on the iteration
        s.I.nlv += 1
        return V(term("lv", (nm, s.I.nlv, V(s.k)) + tuple(V(x) for x in s.I.loopk), lo, hi, name="%s@k'%d" % (nm, s.I.nlv)))

    def body(s, quiet):
        """run one generic iteration; returns outcomes with the base state"""
        I = s.I
        st, env = s.header()
        if st is None:
            return [], s.st0.fork()
        if s.cut is not None:
            st = st.assume(s.cut - 1 - V(s.k))
            if st is None:
                return [], s.st0.fork()
        return s.iterate(st.fork(), env, quiet)

    def header(s):
        """state and values at the head of iteration k"""
        I = s.I
        st = s.st0.fork()
        st.flags = st.flags | {"approx"}
        # range of machine values for affine variables
        env = dict(s.einit)
        st.ev = None
        for lv in s.lvs():
            g = s.generic(lv)
            if lv[0] == "phi":
                env[lv[1]] = g
            else:
                st.setcell(lv[1], lv[2], s.cells[lv], g)
            if isinstance(g, P) and s.kind.get(lv, ("var",))[0] == "aff":
                w = s.width.get(lv) or 64
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if lv in s.sgn else (0, (1 << w) - 1)
                st2 = st.assume(g - lo)
                st2 = st2 and st2.assume(K(hi) - g)
                if st2 is None:
                    return None, None
                st = st2.fork() if st2 is st else st2
        for c in s.inv:
            st2 = st.assume(c)
            if st2 is None:
                return None, None
            st = st2
        st = st.fork()
        for rid in s.hav:
            r = s.regs[rid]
            if s.lastpaths is not None:
                le = LoopEv(s.jbase, V(s.k), s.lastpaths, I.loc(s.h.insts[-1]), s.f.name)
                st.logs[rid] = (s.st0.logs.get(rid), W("loop", None, None, None, le))
            else:
                st.logs[rid] = (s.st0.logs.get(rid), W("havoc", None, None, None))
        return st, env

    def iterate(s, st, env, quiet):
        I = s.I
        s.base = st
        # names are given again in every run of the body
        n0 = (I.nfresh, I.ncall)
        if not hasattr(s, "n0"):
            s.n0 = n0
        I.nfresh, I.ncall = s.n0
        I.loopk.append(s.k)
        if quiet:
            I.quiet += 1
        try:
            starts = [(st, env)]
            for lv in s.sgn:
                nxt = []
                for t, e in starts:
                    g = e[lv[1]]
                    a, b = t.split(g)
                    if a:
                        nxt.append((a, e))
                    if b:
                        nxt.append((b, dict(e, **{}) | {lv[1]: g + (1 << s.width[lv])}))
                starts = nxt
            outs = []
            for t, e in starts:
                outs += I.run_blocks(s.f, s.h, None, t, e, (s.h, s.blocks))
            if s.sgn:
                outs = [x for o in outs for x in s.signed_back(o)]
        finally:
            I.loopk.pop()
            if quiet:
                I.quiet -= 1
            I.nfresh, I.ncall = max(I.nfresh, n0[0]), max(I.ncall, n0[1])
        return outs, st

    def signed_back(s, o):
        """split a back edge so that every signed loop variable has a decided sign"""
        if o[0] != "back":
            return [o]
        res = [o[2]]
        for lv in s.sgn:
            nxt = []
            for t in res:
                v = s.rawback(lv, (o[0], o[1], t, o[3]))
                if isinstance(v, P):
                    nxt += [u for u, _ in s.I.signed(t, v, s.width[lv])]
                else:
                    nxt.append(t)
            res = nxt
        return [("back", o[1], t, o[3]) for t in res]

    def backval(s, lv, o):
        v = s.rawback(lv, o)
        if lv in s.sgn and isinstance(v, P):
            r = s.I.signed(o[2], v, s.width[lv])
            return r[0][1]
        return v

    def rawback(s, lv, o):
        _, pr, st, env = o
        if lv[0] == "phi":
            for i in s.phis:
                if i.id == lv[1]:
                    for pb, pv in i.x:
                        if pb is pr:
                            return s.I.val(pv, env)
        c = st.getcell(lv[1], lv[2])
        return c[1] if c else None

    def run(s):
        # the writes of earlier iterations are first guessed (and confirmed by induction), then given up
        for spec in (True, False):
            s.lastpaths = None
            if not spec:
                s.kind = {lv: ("inv",) for lv in s.init}
                s.gen = {}
                s.inv = []
            r = s.attempt(spec)
            if r is not None:
                return r

    def confirmed(s, outs):
        """the assumptions about the header state hold again at every back edge"""
        backs = [o for o in outs if o[0] == "back"]
        for o in backs:
            mp = {s.k.id: V(s.k) + 1}
            for lv in s.lvs():
                cur, v = s.generic(lv), s.backval(lv, o)
                kd = s.kind[lv]
                if kd[0] in ("inv", "aff"):
                    d = None if v is None else s.shift(v, cur, lv, o)
                    if d is None or d != (ZERO if kd[0] == "inv" else kd[1]):
                        return False
                else:
                    q = cur.o if isinstance(cur, Ptr) else cur
                    v = v.o if isinstance(v, Ptr) else v
                    if kd == ("var", "sameregion") and not (isinstance(s.backval(lv, o), Ptr) and s.backval(lv, o).r is s.init[lv].r):
                        return False
                    a = q.single() if isinstance(q, P) else None
                    if a is not None and isinstance(v, P):
                        mp[a.id] = v
            for c in s.inv:
                cn = subst_top(c, mp)
                if not (s.I.lemma(o[2], cn) if s.I.lemma else o[2]).entails(cn):
                    return False
        return True

    def attempt(s, spec):
        I = s.I
        resets = 0
        guesses = 0
        for rnd in range(18):
            outs, base = s.body(True)
            backs = [o for o in outs if o[0] == "back"]
            if not backs:
                # body never repeats: plain code
                break
            ch = False
            # modified cells
            for o in backs:
                st = o[2]
                for rid, cells in st.cells.items():
                    b = base.cells.get(rid)
                    if b is cells:
                        continue
                    reg = None
                    for off, (sz, v) in cells.items():
                        old = b.get(off) if b else None
                        if old is None or old[1] != v or old[0] != sz:
                            reg = s.regof(rid, st)
                            if reg is None:
                                continue     # region created inside the iteration
                            if rid not in s.st0.cells and old is None and not s.live_before(rid):
                                continue
                            lv = ("cell", reg, off)
                            if lv not in s.init:
                                ini = s.st0.getcell(reg, off)
                                if ini is None:
                                    rr = I.read(s.st0, reg, K(off), sz, isinstance(v, Ptr))
                                    iv = rr[0][1] if len(rr) == 1 else UNDEF
                                else:
                                    iv = ini[1]
                                s.init[lv] = iv
                                s.cells[lv] = sz
                                if spec:
                                    s.kind[lv] = ("inv",)     # what this run of the body assumed
                                s.width[lv] = 0 if isinstance(v, Ptr) or isinstance(iv, Ptr) else sz * 8
                                s.symname[lv] = "%s+%d" % (reg.name, off)
                                ch = True
                for rid, lg in st.logs.items():
                    if lg is not base.logs.get(rid) and rid not in s.hav:
                        reg = s.regof(rid, st)
                        if reg is not None and s.live_before(rid):
                            s.hav.add(rid)
                            s.regs[rid] = reg
                            ch = True
            # classify
            exact = False
            for lv in s.lvs():
                vals = [s.backval(lv, o) for o in backs]
                cur = s.generic(lv)
                old = s.kind.get(lv)
                if any(v is None for v in vals):
                    new = ("var", None)
                elif old is not None and old[0] == "aff":
                    new = old if all(s.shift(v, cur, lv, o) == old[1] for v, o in zip(vals, backs)) else ("var", None)
                else:
                    sts = [s.shift(v, cur, lv, o) for v, o in zip(vals, backs)]
                    if all(x is not None and x == sts[0] for x in sts) and s.invariant(sts[0]):
                        new = ("inv",) if sts[0].const() == 0 else ("aff", sts[0])
                    else:
                        new = None
                        if isinstance(cur, Ptr):
                            ini = s.init[lv]
                            if isinstance(ini, Ptr) and all(isinstance(v, Ptr) and v.r is ini.r for v in vals):
                                new = ("var", "sameregion")
                            else:
                                rs = [v.r for v in vals if isinstance(v, Ptr) and v.r is not NULLR and v.r.policy is not None]
                                new = ("var", rs[0] if rs else None)
                        else:
                            new = ("var", None)
                if old is not None and old[0] == "var" and new[0] == "var":
                    new = old if len(old) > 1 and old[1] is not None else new
                    if old == new or (len(old) > 1 and len(new) > 1 and isinstance(old[1], Region) and isinstance(new[1], Region)):
                        continue
                if old is not None and old[0] == "var" and new[0] in ("aff", "inv") and rnd > 12:
                    continue
                if old is not None and old[0] == "var" and new[0] in ("aff", "inv"):
                    exact = True
                if old != new:
                    s.kind[lv] = new
                    if new[0] == "var":
                        s.gen.pop(lv, None)
                    ch = True
            if spec and s.hav:
                paths = s.paths(outs)
                if s.lastpaths is None or not s.same_paths(paths, s.lastpaths):
                    guesses += 1
                    if guesses > 8:
                        return None
                    s.lastpaths = paths
                    ch = True
            if exact and resets < 3:
                # paths that made other variables vary may be gone now
                resets += 1
                for lv in s.lvs():
                    if s.kind[lv][0] == "var":
                        s.kind[lv] = ("inv",)
                        s.gen.pop(lv, None)
                s.hav.clear()
                s.lastpaths = None
            if not ch:
                break
        else:
            if spec:
                return None
            raise Imprecise("loop at %s did not stabilise" % I.loc(s.h.insts[-1]))
        if not backs:
            outs2, base = s.body(False)
            return s.finish(outs2, [])
        # candidate invariants (Houdini)
        s.houdini(outs, backs)
        # body paths for the write log
        for _ in range(4):
            outs, base = s.body(True)
            paths = s.paths(outs)
            if not s.hav:
                break
            if s.lastpaths is not None and s.same_paths(paths, s.lastpaths):
                break
            s.lastpaths = paths
        else:
            if spec:
                return None
            s.lastpaths = None
        if spec and s.hav:
            outs, base = s.body(True)
            if not s.confirmed(outs) or not s.same_paths(s.paths(outs), s.lastpaths):
                return None
        outs, base = s.body(False)
        return s.finish(outs, s.paths(outs))

    def live_before(s, rid):
        return True

    def regof(s, rid, st):
        r = s.regs.get(rid)
        if r is not None:
            return r
        # look for the region among reachable pointers of the initial state/env
        seen = set()

        def scan(v):
            if isinstance(v, Ptr):
                if v.r.id == rid:
                    s.regs[rid] = v.r
                    return True
            return False
        for v in list(s.env0.values()):
            if scan(v):
                return s.regs[rid]
        for cells in s.st0.cells.values():
            for sz, v in cells.values():
                if scan(v):
                    return s.regs[rid]
        for lv in s.lvs():
            g = s.gen.get(lv)
            if g is not None and scan(g):
                return None          # per-iteration object
        for lg in s.st0.logs.values():
            while lg is not None:
                if scan(lg[1].val):
                    return s.regs[rid]
                lg = lg[0]
        r = s.I.regions.get(rid)
        if r is not None:
            s.regs[rid] = r
            return r
        return None

    def shift(s, v, cur, lv, o):
        if isinstance(v, Ptr) and isinstance(cur, Ptr):
            if v.r is cur.r and v.r is not NULLR:
                return v.o - cur.o
            if v == cur:
                return ZERO
            return None
        if isinstance(v, P) and isinstance(cur, P):
            d = v - cur
            return d
        if v is cur:
            return ZERO
        return None

    def invariant(s, p):
        """p does not depend on the iteration"""
        da = deep_atoms(p)
        if s.k.id in da:
            return False
        for lv, g in s.gen.items():
            q = g.o if isinstance(g, Ptr) else g
            if isinstance(q, P) and any(a in da for a in q.atoms()):
                return False
        return True

    def houdini(s, outs, backs):
        I = s.I
        k = V(s.k)
        cands = []
        seen = set()

        def add(p):
            p = norm(p)
            if p in seen or p.const() is not None or len(cands) > 200:
                return
            seen.add(p)
            cands.append(p)
        gens = {}
        for lv in s.lvs():
            g = s.generic(lv)
            q = g.o if isinstance(g, Ptr) and (s.kind[lv][0] == "aff" or s.kind[lv] == ("var", "sameregion")) else g
            if isinstance(q, P) and s.kind[lv][0] != "inv":
                ini = s.init[lv]
                gens[lv] = (q, ini.o if isinstance(ini, Ptr) else ini)
        lvatoms = {s.k.id}
        for lv, (q, _) in gens.items():
            if s.kind[lv][0] == "var":
                lvatoms |= set(q.atoms())
        var_gens = [(lv, q, i) for lv, (q, i) in gens.items() if s.kind[lv][0] == "var" and isinstance(i, P)]
        for lv, q, i in var_gens:
            add(q - i)
            add(i - q)
        basecons = set(s.base.cons)
        for o in outs:
            st = o[2] if o[0] == "back" else (o[3] if o[0] == "exit" else o[1])
            for c in st.cons:
                if c in basecons or not (set(c.atoms()) & lvatoms):
                    continue
                add(c)
                add(c + 1)
                neg = -c
                add(neg)
                add(neg - 1)
                # weakened by one step
                if s.k.id in c.atoms():
                    step = ZERO
                    for m, co in c.t.items():
                        if m.count(s.k.id) == 1:
                            mm = list(m)
                            mm.remove(s.k.id)
                            step = step + P({tuple(mm): co})
                    add(c - step)
                    add(c + step)
        for a in range(len(var_gens)):
            for b in range(len(var_gens)):
                if a != b:
                    add(var_gens[a][1] - var_gens[b][1])
                    add(var_gens[a][1] - var_gens[b][1] + 1)
        if s.I.extra_cands:
            for lv, q, i in var_gens:
                for c in s.I.extra_cands(q):
                    add(c)
        if s.I.extra_loop_cands:
            for lv, q, i in var_gens:
                for c in s.I.extra_loop_cands(q, k):
                    add(c)
        if s.I.extra_pair_cands:
            for lv, q, i in var_gens:
                for lv2, q2, i2 in var_gens:
                    if lv != lv2:
                        for c in s.I.extra_pair_cands(q, q2):
                            add(c)
        # bounds against the initial values of the others
        for lv, q, i in var_gens:
            for lv2, q2, i2 in var_gens:
                if lv2 != lv:
                    add(q - i2)
                    add(i2 - q)
                    add(i2 - q + 1)
                    add(q - i2 + 1)
            for lv2, (q2, i2) in gens.items():
                if s.kind[lv2][0] == "aff":
                    add(q - q2)
                    add(q2 - q)
                    add(q2 - q - 1)
        # initially true
        mp0 = {s.k.id: ZERO}
        ini_map = dict(mp0)
        for lv, q, i in var_gens:
            a = q.single()
            if a is not None and isinstance(i, P):
                ini_map[a.id] = i
        # 'lv' atoms contain k inside their args: substitute them first
        good = []
        for c in cands:
            if not self_only(c, ini_map, lvatoms, s.k.id):
                continue
            c0 = subst_top(c, ini_map)
            if (s.I.lemma(s.st0, c0) if s.I.lemma else s.st0).entails(c0):
                good.append(c)
        # preserved
        if s.I.trace: print("HOU", cands, "GOOD", good, "st0", s.st0.cons)
        for rnd in range(8):
            s.inv = good
            outs, base = s.body(True)
            backs = [o for o in outs if o[0] == "back"]
            keep = []
            for c in good:
                ok = True
                for o in backs:
                    mp = {s.k.id: k + 1}
                    bad = False
                    for lv, q, i in var_gens:
                        v = s.backval(lv, o)
                        v = v.o if isinstance(v, Ptr) else v
                        a = q.single()
                        if a is None or not isinstance(v, P):
                            bad = a is not None and a.id in c.atoms()
                            if bad:
                                break
                            continue
                        mp[a.id] = v
                    if bad:
                        ok = False
                        break
                    cn = subst_top(c, mp)
                    if not (s.I.lemma(o[2], cn) if s.I.lemma else o[2]).entails(cn):
                        ok = False
                        break
                if ok:
                    keep.append(c)
            if len(keep) == len(good):
                break
            good = keep
        else:
            good = []
        s.inv = good

    def paths(s, outs):
        """continue-paths of one iteration in terms of the bound variable j"""
        I = s.I
        j = getattr(s, "jbase", None)
        if j is None:
            j = s.jbase = atom("j%d" % len(ATOMS), 0, U64, kind="loopj")
        mp = {s.k.id: V(j)}
        base = s.base
        res = []
        nb = len(base.cons)
        for o in outs:
            if o[0] != "back":
                continue
            st = o[2]
            bc = set(s.st0.cons)
            conds = [subst(c, mp) for c in st.cons if c not in bc]
            dis = [subst(c, mp) for c in st.diseq if c not in s.st0.diseq]
            evs = [subst_ev(e, mp) for e in st.events()]
            writes = {}
            for rid, lg in st.logs.items():
                b = base.logs.get(rid)
                if lg is b:
                    continue
                ws = []
                cur = lg
                while cur is not None and cur is not b:
                    ws.append(cur[1])
                    cur = cur[0]
                ws.reverse()
                writes[rid] = [subst_w_short(w, mp, b) for w in ws]
            res.append(LoopPath(conds, dis, evs, writes))
        return res

    def same_paths(s, a, b):
        if len(a) != len(b):
            return False
        for p, q in zip(a, b):
            if p.conds != q.conds or set(p.writes) != set(q.writes):
                return False
            for r in p.writes:
                if len(p.writes[r]) != len(q.writes[r]):
                    return False
                for x, y in zip(p.writes[r], q.writes[r]):
                    if x.kind != y.kind or x.off != y.off or x.len != y.len:
                        return False
                    if x.kind == "copy":
                        if x.val[0] is not y.val[0] or x.val[1] != y.val[1]:
                            return False
                    elif x.val != y.val:
                        return False
        return True

    def finish(s, outs, paths):
        I = s.I
        res = []
        I.loopinfo.append((s.f.name, I.loc(s.h.insts[-1]), len(paths), [repr(c) for c in s.inv]))
        last = s.lastvalues(outs, paths) if paths and s.cut is None else None
        if I.on_loop is not None and not I.quiet:
            I.on_loop(s, outs)
        if I.ranked is not None and not I.quiet:
            rk = s.ranking(outs) if s.cut is None else "cut"
            I.ranked.append((s.f.name, I.loc(s.h.insts[-1]), rk))
            if rk is None:
                s.wraps(outs)
        if not I.quiet and s.cut is None:
            s.noexit(outs)
        for o in outs:
            if o[0] == "back":
                continue
            st = (o[3] if o[0] == "exit" else o[1]).fork()
            evs = st.events()
            if last is not None and o[0] == "exit" and s.mentions(last[1], o[4], st):
                res += s.lastsplit(last, o, paths)
                continue
            chain = s.st0.ev
            if paths:
                le = LoopEv(s.jbase, V(s.k), paths, I.loc(s.h.insts[-1]), s.f.name)
                chain = (chain, le)
            for e in evs:
                chain = (chain, e)
            st.ev = chain
            if paths and s.hav and s.lastpaths is None:
                pass
            if o[0] == "exit":
                res.append(("exit", o[1], o[2], st, o[4]))
            else:
                res.append(("ret", st, o[2]))
        if s.cut is not None:
            st, env = s.header()
            st = st and st.assume_eq(V(s.k) - s.cut)
            if st is not None:
                st = st.fork()
                st.ev = (s.st0.ev, LoopEv(s.jbase, V(s.k), paths, I.loc(s.h.insts[-1]), s.f.name)) if paths else s.st0.ev
                res.append(("cut", st, env))
        return res


    def ranking(s, outs):
        """an expression that is >= 0 whenever the loop goes on and then decreases; None if none was found"""
        I = s.I
        backs = [o for o in outs if o[0] == "back" and not infeasible(o[2].cons)]
        if not backs:
            return "never repeats"
        k = V(s.k)
        lvatoms = {s.k.id}
        gens = []
        for lv in s.lvs():
            g = s.generic(lv)
            q = g.o if isinstance(g, Ptr) else g
            a = q.single() if isinstance(q, P) else None
            if s.kind[lv][0] == "var" and isinstance(q, P):
                lvatoms |= set(q.atoms())
                if a is not None:
                    gens.append((lv, a))
        maps = []
        for o in backs:
            mp = {s.k.id: k + 1}
            for lv, a in gens:
                v = s.backval(lv, o)
                g = s.generic(lv)
                if isinstance(v, Ptr) and isinstance(g, Ptr) and v.r is g.r:
                    v = v.o
                if isinstance(v, P):
                    mp[a.id] = v
            maps.append(mp)
        basecons = set(s.st0.cons)
        cands, seen = [], set()

        def add(c):
            if c not in seen and c.const() is None and all(a in maps[i] for i in range(len(maps)) for a in c.atoms() if a in lvatoms):
                seen.add(c)
                cands.append(c)
        for c in backs[0][2].cons:
            if c not in basecons and set(c.atoms()) & lvatoms:
                add(c)
        if I.extra_rank:
            for c in I.extra_rank(s, backs):
                add(c)
        cands.sort(key=lambda c: len(c.t))

        def ent(st, g):
            return (I.lemma(st, g) if I.lemma else st).entails(g)

        left = list(range(len(backs)))
        order = []
        while left:
            # lexicographic: c never increases on the paths left and decreases on some of them
            for c in cands:
                ok, dec = True, []
                for i in left:
                    st = backs[i][2]
                    d = c - subst_top(c, maps[i])
                    if not ent(st, d):
                        ok = False
                        break
                    if ent(st, d - 1) and ent(st, c):
                        dec.append(i)
                if ok and dec:
                    order.append(c)
                    left = [i for i in left if i not in dec]
                    break
            else:
                return None
        return ", ".join(repr(c) for c in order)

    def wraps(s, outs):
        """a counter that runs through all values of its type and starts again, while nothing else changes"""
        I = s.I
        if s.hav:
            return
        var = None
        used, temp = set(), set()
        for o in outs:
            for c in o[2].cons + o[2].diseq if o[0] == "back" else ():
                used |= deep_atoms(c)
        regs = {x.id for u in used for x in ATOMS[u].args or () if isinstance(x, Region)}
        for lv in s.lvs():
            kd = s.kind[lv][0]
            if kd == "inv":
                continue
            g = s.generic(lv)
            if lv[0] == "cell" and lv[1].kind == "local":
                # a local variable no iteration reads before it has set it
                q = g.o if isinstance(g, Ptr) else g
                if isinstance(q, P) and not (q.atoms() & used) and not (isinstance(g, Ptr) and g.r.id in regs and kd == "var"):
                    temp.add((lv[1].id, lv[2]))
                    continue
            if kd != "var" or var is not None or lv[0] != "phi" or not isinstance(g, P) or g.single() is None:
                return
            var = (lv, g.single())
        if var is None:
            return
        lv, a = var
        n = a.hi - a.lo + 1
        paths = {}
        for o in outs:
            if o[0] != "back" or infeasible(o[2].cons):
                continue
            v = s.backval(lv, o)
            d = (v - V(a)).const() if isinstance(v, P) else None
            if d is None or any((r, f) not in temp and x != (s.base.cells.get(r) or {}).get(f) for r, c in o[2].cells.items() for f, x in c.items()) or o[2].freed != s.base.freed:
                continue
            e, ok = o[2].ev, True
            while e is not None:
                ok = ok and isinstance(e[1], Ev) and e[1].kind == "cb"
                e = e[0]
            if ok:
                paths.setdefault(d, []).append(o[2])
        for step in (1, -1):
            wrap = step - n * step
            for p in paths.get(step, ())[:4]:
                for q in paths.get(wrap, ())[:4]:
                    first, last = (a.lo, a.hi) if step == 1 else (a.hi, a.lo)
                    st = s.st0
                    same = {}
                    for path, val in ((p, first), (p, last - step), (q, last)):
                        mp = {a.id: K(val), s.k.id: V(atom("k%d" % len(ATOMS), 0, U64))}
                        for c in list(path.cons) + list(path.diseq):
                            for x in c.atoms():
                                if x in mp or not (deep_atoms(V(ATOMS[x])) & {a.id, s.k.id}):
                                    continue
                                if ATOMS[x].kind != "init":
                                    return
                                # the same content everywhere
                                if x not in same:
                                    same[x] = V(atom("content%d" % len(ATOMS), ATOMS[x].lo, ATOMS[x].hi))
                                mp[x] = same[x]
                        if any(a.id in c.atoms() for c in path.diseq):
                            st = None
                        for c in path.cons:
                            st = st and st.assume(subst_top(c, mp))
                        if st is not None:
                            st = st.fork()
                            st.diseq = st.diseq + tuple(x for x in (subst_top(c, mp) for c in path.diseq) if x.const() is None)
                    if st is not None and not infeasible(st.cons):
                        I.stuck.append((s.f.name, I.loc(s.h.insts[-1]), st.fork(), False))
                        return

    def noexit(s, outs):
        """a narrow counter whose type has no value that lets the loop end: the loop does not end, or (if it accesses more and more memory)
        leaves the memory it works on"""
        I = s.I
        ctr, lvs = {}, {s.k.id}
        for lv in s.lvs():
            g = s.generic(lv)
            q = g.o if isinstance(g, Ptr) else g
            if s.kind[lv][0] != "inv" and isinstance(q, P):
                lvs |= deep_atoms(q) if s.kind[lv][0] == "var" else set()
                a = g.single() if isinstance(g, P) else None
                if lv[0] == "phi" and s.kind[lv][0] == "var" and a is not None and a.lo is not None and a.hi is not None and a.hi - a.lo < 1 << 32:
                    ctr[a.id] = a
        if not ctr or not any(o[0] == "back" and not infeasible(o[2].cons) for o in outs):
            return
        st = s.st0
        n = 0
        for o in outs:
            if o[0] == "back":
                continue
            x = o[3] if o[0] == "exit" else o[1]
            if infeasible(x.cons):
                continue
            n += 1
            for c in x.cons:
                at = c.atoms()
                if not (at & set(ctr)) or any((deep_atoms(V(ATOMS[b])) & lvs) and b not in ctr for b in at) or any(len(m) > 1 and set(m) & set(ctr) for m in c.t):
                    continue
                if c in s.inv or norm(c) in s.st0.cons:
                    continue
                # the largest value it can have
                g = subst_top(c, {b: K(ctr[b].hi if c.t[(b,)] > 0 else ctr[b].lo) for b in at & set(ctr)})
                t = st.assume(-g - 1)
                if t is not None and not infeasible(t.cons):
                    st = t
                    break
            else:
                return
        if n:
            I.stuck.append((s.f.name, I.loc(s.h.insts[-1]), st.fork(), True))

    # a variable that some iterations set and no iteration reads: afterwards it holds its initial value or the one set last
    def lastvalues(s, outs, paths):
        backs = [o for o in outs if o[0] == "back"]
        if len(backs) != len(paths):
            return None
        for lv in s.lvs():
            if s.kind[lv][0] != "var":
                continue
            g = s.generic(lv)
            vals = [s.backval(lv, o) for o in backs]
            keep = [i for i, v in enumerate(vals) if v is not None and (v is g or type(v) is type(g) and v == g)]
            sets = [i for i in range(len(vals)) if i not in keep]
            if not sets or any(not isinstance(vals[i], (P, Ptr)) or s.has(g, vals[i]) for i in sets):
                continue
            if lv[0] == "cell" and not keep or any(s.has(g, c) for c in s.inv):
                continue
            if any(isinstance(vals[i], Ptr) and vals[i].r.kind == "loopptr" for i in sets):
                continue
            if any(s.read_in(g, o) for o in outs):
                continue
            return lv, g, keep, [(i, vals[i]) for i in sets]
        return None

    def has(s, g, v):
        if isinstance(g, Ptr):
            if isinstance(v, Ptr):
                return v.r is g.r or isinstance(v.o, P) and g.r.kind != "loopptr" and bool(deep_atoms(v.o) & g.o.atoms())
            return isinstance(v, P) and g.r.kind != "loopptr" and bool(deep_atoms(v) & g.o.atoms())
        if isinstance(v, Ptr):
            return bool(deep_atoms(v.o) & g.atoms())
        return isinstance(v, P) and bool(deep_atoms(v) & g.atoms())

    def read_in(s, g, o):
        """does the iteration depend on the variable?"""
        st = o[2] if o[0] == "back" else (o[3] if o[0] == "exit" else o[1])
        if isinstance(g, Ptr) and st.null.get(g.r.id) is not None:
            return True
        if any(s.has(g, c) for c in st.cons + st.diseq if c not in s.base.cons and c not in s.base.diseq):
            return True
        for e in st.events():
            if isinstance(e, LoopEv) or any(s.has(g, x) for x in list(e.args) + [e.ret, e.x] if isinstance(x, (P, Ptr))):
                return True
        return any(st.logs[r] is not s.base.logs.get(r) for r in st.logs)

    def mentions(s, g, env, st):
        return any(s.has(g, v) for v in env.values()) or any(s.has(g, v) for cs in st.cells.values() for _, v in cs.values())

    def lastsplit(s, last, o, paths):
        I = s.I
        lv, g, keep, sets = last
        kept = [paths[i] for i in keep]
        loc = I.loc(s.h.insts[-1])
        out = []

        def emit(st, val, chain):
            st = st.fork()
            for e in (o[3].events()):
                chain = (chain, e)
            st.ev = chain
            for rid, cs in st.cells.items():
                if any(s.has(g, v) for _, v in cs.values()):
                    st.cells[rid] = {k: (z, val if v == g else v) for k, (z, v) in cs.items()}
            out.append(("exit", o[1], o[2], st, {i: (val if type(v) is type(g) and v == g else v) for i, v in o[4].items()}))
        # never set
        t = o[3] if kept else o[3].assume_eq(V(s.k))
        if t is not None:
            emit(t, s.init[lv], (s.st0.ev, LoopEv(s.jbase, V(s.k), kept, loc, s.f.name)) if kept else s.st0.ev)
        # set last in iteration n
        n = V(atom("n%d" % len(ATOMS), 0, U64, kind="loopk"))
        j2 = atom("j%d" % len(ATOMS), 0, U64, kind="loopj")
        mj, ms = {s.jbase.id: n}, {s.jbase.id: n + 1 + V(j2)}
        after = [LoopPath([subst(c, ms) for c in p.conds], [subst(c, ms) for c in p.diseq], [subst_ev(e, ms) for e in p.events], {}) for p in kept]
        for i, v in sets:
            t = o[3].assume(V(s.k) - 1 - n)
            t = t and t.assume(n)
            if t is not None and not kept:
                t = t.assume_eq(V(s.k) - 1 - n)
            for c in paths[i].conds:
                t = t and t.assume(subst(c, mj))
            for d in paths[i].diseq:
                t = t and t.assume_ne(subst(d, mj))
            if t is None:
                continue
            chain = (s.st0.ev, LoopEv(s.jbase, n, paths, loc, s.f.name))
            for e in paths[i].events:
                chain = (chain, subst_ev(e, mj))
            if kept:
                chain = (chain, LoopEv(j2, V(s.k) - 1 - n, after, loc, s.f.name))
            emit(t, subst_val(v, {s.k.id: n}), chain)
        return out


def subst_w_short(w, mp, base):
    """substitute in one write; source logs are left symbolic up to the loop base"""
    if w.kind == "copy":
        sr, so, slog, sc = w.val
        return W("copy", subst(w.off, mp), subst(w.len, mp), (sr, subst(so, mp), subst_log(slog, mp), sc), w.x)
    return subst_w(w, mp)


def subst_top(p, mp):
    """substitution of top-level atoms only, then inside structured ones"""
    r = ZERO
    for m, c in p.t.items():
        t = K(c)
        for a in m:
            if a in mp:
                t = t * mp[a]
            else:
                n = subst_atom(a, mp)
                t = t * (n if n is not None else P({(a,): 1}))
        r = r + t
    return r


def self_only(c, mp, lvatoms, k):
    return all((a not in lvatoms) or a in mp for a in c.atoms())
