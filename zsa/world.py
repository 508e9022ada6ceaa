"""Entry states (preconditions) and proof obligations shared by all contracts."""
import os, time, hashlib
from .lin import *
from . import lin
from .interp import *
from . import build
from .llvmc import CInt


class Layout:
    def __init__(s, mod):
        s.c = {}
        for g in mod.globals.values():
            if isinstance(g.init, CInt):
                s.c[g.name] = g.init.v

    def off(s, t, f):
        return s.c["off_%s_%s" % (t, f)]

    def size(s, t):
        return s.c["sizeof_" + t]

    def val(s, n):
        return s.c["val_" + n]


class Ob:
    """one proof obligation"""
    __slots__ = ("props", "fn", "case", "what", "status", "detail", "loc", "key")

    def __init__(s, props, fn, case, what, status, detail="", loc=""):
        s.props, s.fn, s.case, s.what, s.status, s.detail, s.loc = props, fn, case, what, status, detail, loc


class World:
    def __init__(s, config="debug", module=None):
        s.config = config
        s.want = None         # the property that is being checked
        s.undef = []          # memory errors found on the way (they end the path they lie on)
        s.unroll = 0          # 0: prove; n>0: refute (loops cut after n iterations)
        s.m = module or build.build_module(config)
        lay = build.compile_layout()
        s.lay = lay
        s.ST = {n[len("val_ZYAN_STATUS_"):]: v for n, v in lay.c.items() if n.startswith("val_ZYAN_STATUS_")}
        s.obs = []
        s.stuck = []       # loops that do not end
        s.funcs = set()
        s.inst = 0
        s.calls = 0
        s.loops = []
        s.errors = []
        s.accesses = 0


class Exit:
    __slots__ = ("st", "ret")

    def __init__(s, st, ret):
        s.st, s.ret = st, ret


TERM = "E01"


class Case:
    """analysis of one exported function from one family of entry states"""
    MEMKINDS = {"oob", "nullderef", "uaf", "overlap", "romem", "badptr", "uninit", "doublefree", "nullcall", "shift", "divzero", "assert"}

    KINDPROPS = {"alloccontract": ("M01",), "cmpargs": ("V06",), "cmprange": ("V06",), "valist": ("F02",)}

    def __init__(s, w, fn, name, mem=(), stubs=None, models=None):
        s.w, s.fn, s.name = w, fn, name
        s.mem = tuple(mem)
        s.I = Interp(w.m, unroll=w.unroll, stubs=stubs, models=models)
        if w.want in (None, TERM):
            s.I.ranked = []
        s.st = State()
        s.exits = []
        s.entry_first = []
        s.known = {}

    # ---- symbols
    def sym(s, name, lo=0, hi=U64):
        return V(atom(name, lo, hi))

    def assume(s, p):
        t = s.st.assume(p)
        if t is None:
            raise RuntimeError("contradictory precondition in %s/%s" % (s.fn, s.name))
        s.st = t.fork()

    def assume_eq(s, p):
        t = s.st.assume_eq(p)
        if t is None:
            raise RuntimeError("contradictory precondition in %s/%s" % (s.fn, s.name))
        s.st = t.fork()

    def region(s, name, size=None, mode="array", **kw):
        r = Region(name, size, mode=mode, **kw)
        s.I.regions[r.id] = r
        return r

    def struct(s, tname, name):
        return s.region(name, K(s.w.lay.size(tname)), "cells")

    def set(s, r, tname, field, val, base=0, size=8):
        s.st.setcell(r, base + s.w.lay.off(tname, field), size, val)

    def out(s, name, size=8):
        """an out-parameter: writable cell without initial value"""
        r = s.region(name, K(size), "cells")
        r.init_content = "undef"
        return r

    def fnptr(s, name, model, maybe_null=False):
        r = Region(name, K(1), kind="fn", maybe_null=maybe_null)
        r.model = model
        r.fname = name
        s.I.regions[r.id] = r
        return r

    # ---- running
    def run(s, *args):
        s.I.issues = []
        s.I.sites = {}
        if s.I.ranked is not None:
            s.I.ranked = []
        s.I.stuck = []
        rs = s.I.run_named(s.fn, list(args), s.st)
        s.exits = [Exit(st, v) for st, v in rs]
        w = s.w
        w.funcs |= s.I.visited
        w.inst += s.I.ninst
        w.calls += s.I.ncall
        w.loops += [(s.fn,) + x for x in s.I.loopinfo]
        seen = set()
        bad = set()
        for iss in s.I.issues:
            if iss.kind in s.MEMKINDS or iss.kind in s.KINDPROPS:
                props = s.KINDPROPS.get(iss.kind, s.mem)
                k = (iss.kind, iss.loc, iss.msg if iss.kind != "oob" else iss.msg.split(" (size")[0])
                if k in seen:
                    continue
                r = s.judge_issue(iss)
                if r[0] == "ok":
                    continue
                if r[0] == "violated":
                    seen.add(k)
                bad.add(iss.loc)
                s.ob(props, "%s: %s" % (iss.kind, iss.msg), r[0], r[1], iss.loc, key="%s@%s" % (iss.kind, iss.stack[-1] if iss.stack else "?"))
                if iss.kind in s.MEMKINDS and w.want not in props:
                    w.undef.append((s.fn, s.name, "the operation has a defined result (%s: %s)" % (iss.kind, iss.msg), r[0], r[1], iss.loc))
        for (kind, loc, what), n in sorted(s.I.sites.items()):
            if loc not in bad:
                s.ob(s.KINDPROPS.get(kind, s.mem), "%s at %s" % (what, loc), "ok", "%d times" % n, loc)
        s.w.accesses += s.I.naddr
        s.terminates()
        return s.exits

    def terminates(s):
        loops = {}
        for fn, loc, r in s.I.ranked or []:
            loops.setdefault((fn, loc), []).append(r)
        for (fn, loc), rs in sorted(loops.items()):
            bad = [r for r in rs if r is None]
            s.ob((TERM,), "the loop of %s at %s ends" % (fn, loc), "undecided" if bad else "ok",
                 "no ranking function found" if bad else "decreases: %s" % "; ".join(sorted(set(rs)))[:200], loc, key="loop %s" % fn)
        seen = set()
        for fn, loc, st, moves in s.I.stuck:
            if (fn, loc) in seen:
                continue
            r = s.reach(st)
            if r[0] == "violated":
                seen.add((fn, loc))
                what = "its counter runs through all its values and starts again before the loop can end, " \
                       "so that it does not end or leaves the memory it works on; " if moves else "the loop comes back to a state it was in before; "
                s.w.stuck.append((s.fn, s.name, "the loop of %s at %s ends" % (fn, loc), what + r[1], loc))
                if s.I.ranked is not None or moves:
                    s.ob((TERM,) + (s.mem if moves else ()), "the loop of %s at %s ends" % (fn, loc), "violated", what + r[1], loc, key="loop %s" % fn)

    def judge_issue(s, iss):
        st = iss.state
        if iss.goal is not None:
            r = s.decide(st, iss.goal)
        else:
            r = s.reach(st)
        if r[0] == "violated" and iss.imprecise:
            r = ("undecided", r[1])
        return r

    # ---- deciding
    def reach(s, st):
        """is the abstract state inhabited?"""
        if infeasible(st.cons):
            return ("ok", "")
        ats = set()
        for c in st.cons:
            ats |= c.atoms()
        if any(ATOMS[a].imprecise for a in ats):
            return ("undecided", "depends on values the analysis approximated")
        if "approx" in st.flags:
            return ("undecided", "beyond a summarised loop")
        m = lin.witness(st.cons, diseq=st.diseq)
        if m is None:
            return ("undecided", "no concretisation of the abstract state found")
        return ("violated", "e.g. " + fmt_w(m))

    def decide(s, st, goal):
        """goal >= 0 on every point of st"""
        if st.entails(goal):
            return ("ok", "")
        ats = set(goal.atoms())
        if any(ATOMS[a].imprecise for a in deep_atoms(goal)):
            return ("undecided", "depends on values the analysis approximated (%r)" % goal)
        if "approx" in st.flags:
            return ("undecided", "beyond a summarised loop: %r >= 0" % goal)
        rel = list(st.cons)
        m = lin.witness(rel + [-goal - 1], diseq=st.diseq)
        if m is None:
            return ("undecided", "neither proved nor refuted: %r >= 0" % goal)
        return ("violated", "%r >= 0 fails, e.g. %s" % (goal, fmt_w(m)))

    def decide_eq(s, st, p):
        r = s.decide(st, p)
        if r[0] != "ok":
            return r
        return s.decide(st, -p)

    def ob(s, props, what, status, detail="", loc="", key=None):
        if s.w.unroll and status != "violated":
            return status == "ok"
        o = Ob(tuple(props), s.fn, s.name, what, status, detail, loc)
        o.key = key or what
        s.w.obs.append(o)
        return status == "ok"

    def require(s, props, what, ex, cond, detail="", key=None):
        """plain structural requirement on an exit; refuted only if the exit is inhabited"""
        if cond:
            return s.ob(props, what, "ok", key=key)
        st = ex.st if isinstance(ex, Exit) else ex
        r = s.reach(st)
        if r[0] == "ok":
            return s.ob(props, what, "ok", key=key)
        return s.ob(props, what, r[0], (detail + "; " if detail else "") + r[1] + s.pathinfo(ex), key=key)

    def prove(s, props, what, ex, goal, key=None):
        st = ex.st if isinstance(ex, Exit) else ex
        r = s.decide(st, goal)
        return s.ob(props, what, r[0], r[1] + (s.pathinfo(ex) if r[0] != "ok" else ""), key=key)

    def prove_eq(s, props, what, ex, a, b, key=None):
        """equality of two abstract values"""
        st = ex.st if isinstance(ex, Exit) else ex
        r = s.eqv(st, a, b)
        return s.ob(props, what, r[0], r[1] + (s.pathinfo(ex) if r[0] != "ok" else ""), key=key)

    def eqv(s, st, a, b):
        if a is None or b is None:
            return s.flag(st, "value missing: %r vs %r" % (a, b))
        if a is UNDEF or b is UNDEF:
            return s.flag(st, "uninitialised value instead of %r" % (b if a is UNDEF else a,))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                return s.decide_eq(st, a.o - b.o)
            for x, y in ((a, b), (b, a)):
                if x.r is NULLR and x.o.const() == 0 and y.r.maybe_null:
                    k = st.null.get(y.r.id)
                    if k:
                        return ("ok", "")
                if x.r is NULLR and x.o.const() == 0 and any(st.entails_eq(y.o - z) for z in y.r.nullat):
                    return ("ok", "")
            if a.r.maybe_null and b.r.maybe_null and st.null.get(a.r.id) and st.null.get(b.r.id):
                return ("ok", "")
            if a.r.imprecise or b.r.imprecise:
                return ("undecided", "pointer value approximated")
            return s.flag(st, "%r instead of %r" % (a, b))
        if isinstance(a, P) and isinstance(b, P):
            x, y = a.single(), b.single()
            if x is not None and y is not None and x is not y and x.kind == y.kind and x.kind in ("init", "uninit") \
                    and x.args[0] is y.args[0] and x.args[2] == y.args[2] and st.entails_eq(x.args[1] - y.args[1]):
                return ("ok", "")
            return s.decide_eq(st, a - b)
        if isinstance(a, Ptr) and isinstance(b, P):
            a, b = b, a
        if isinstance(a, P) and isinstance(b, Ptr):
            if a.const() == 0:
                return s.eqv(st, NULLP, b)
        return s.flag(st, "%r instead of %r" % (a, b))

    def flag(s, st, msg):
        r = s.reach(st)
        if r[0] == "violated":
            return ("violated", msg + "; " + r[1])
        return (r[0], msg + "; " + r[1])

    def pathinfo(s, ex):
        if isinstance(ex, Exit):
            r = ex.ret
            if isinstance(r, P) and r.const() is not None:
                r = s.w.stname(r.const())
            return " [exit returning %s]" % (r,)
        return ""

    # ---- exit helpers
    def cell(s, ex, r, tname, field, base=0):
        st = ex.st if isinstance(ex, Exit) else ex
        off = base + s.w.lay.off(tname, field)
        c = st.getcell(r, off)
        if c is not None:
            return c[1]
        rs = s.I.read(st, r, K(off), 8, False)
        return rs[0][1] if len(rs) == 1 else None

    def outval(s, ex, r, off=0):
        st = ex.st if isinstance(ex, Exit) else ex
        c = st.getcell(r, off)
        return c[1] if c else None

    def isstatus(s, ex, name):
        return isinstance(ex.ret, P) and ex.ret.const() == s.w.ST[name]

    def success(s, ex):
        """True / False / None(unknown)"""
        r = ex.ret
        if not isinstance(r, P):
            return None
        if ex.st.entails(K((1 << 31) - 1) - r):
            return True
        if ex.st.entails(r - (1 << 31)):
            return False
        return None

    def read(s, st, r, off, size=1, isptr=False):
        return s.I.read(st, r, off, size, isptr)

    def initial(s, st, r, off, size=1, isptr=False):
        return s.I.initial(st, r, off, size, isptr)[0][1]

    def seq(s, props, what, ex, dst, lo, hi, src, shift, es=None, key=None, dstbase=ZERO, final=False):
        """elements [lo,hi) of dst now equal elements [lo+shift, hi+shift) of src as at entry.
        es: element size (P) - positions are element indices; None: bytes."""
        st = ex.st if isinstance(ex, Exit) else ex
        p = s.sym("p", 0)
        t = st.assume(p - lo)
        t = t and t.assume(hi - p - 1)
        if t is None:
            return s.ob(props, what, "ok", "vacuous", key=key)
        if es is None:
            o = p + dstbase
            so = p + shift
        else:
            b = s.sym("b", 0)
            t = t.assume(es - 1 - b)
            o = p * es + b + dstbase
            so = (p + shift) * es + b
        if t is None:
            return s.ob(props, what, "ok", "vacuous", key=key)
        res = "ok"
        det = ""
        for u, v in s.I.read(t, dst, o, 1, False):
            if callable(src):
                want = src(u, p)
            else:
                want = s.initial(u, src, so, 1)
            r = s.eqv(u, v, want) if not (isinstance(v, P) and isinstance(want, P) and v == want) else ("ok", "")
            if r[0] == "violated":
                return s.ob(props, what, "violated", "byte at %r is %r, expected %r; %s%s" % (o, v, want, r[1], s.pathinfo(ex)), key=key)
            if r[0] != "ok":
                res, det = r[0], "byte at %r is %r, expected %r; %s" % (o, v, want, r[1])
        return s.ob(props, what, res, det, key=key)


def fmt_w(m):
    items = []
    for a, v in sorted(m.items(), key=lambda x: x[0].id):
        if a.name.startswith(("wrap", "div(", "mod(")):
            continue
        items.append("%s=%s" % (a.name, lin._fmt(v) if v >= 0 else v))
    return ", ".join(items[:14])


def stname(w, v):
    for n, c in w.ST.items():
        if c == v:
            return n
    return hex(v)


World.stname = stname


def run_named(I, fn, args, st):
    f = I.m.functions.get(fn)
    if f is None or f.decl:
        raise MissingAnchor("function %s is not defined in the analysed sources" % fn)
    if len(f.args) != len(args):
        raise MissingAnchor("function %s takes %d parameters, %d expected" % (fn, len(f.args), len(args)))
    return I.run_function(f, args, st)


class MissingAnchor(Exception):
    pass


Interp.run_named = run_named
Interp.naddr = 0
_addr = Interp.addr


def _counted_addr(self, st, p, n, inst, write=False, what="access"):
    self.naddr += 1
    self.site("mem", inst, "%s (%s) stays inside its object" % (what, "write" if write else "read"))
    return _addr(self, st, p, n, inst, write, what)


def site(self, kind, inst, what):
    if not self.quiet:
        k = (kind, self.loc(inst) if inst is not None else "?", what)
        self.sites[k] = self.sites.get(k, 0) + 1


Interp.sites = {}
Interp.site = site


Interp.addr = _counted_addr
