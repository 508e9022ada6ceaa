"""Contracts of the vector component (and the building blocks reused by string/bitset)."""
from .world import *
from .interp import W as Wr

MAXB = 1 << 55      # largest object the analysis considers (57-bit user address space)


class Vec:
    pass


def allocator(c, name="allocator", dealloc_fails=True, fails=True):
    """a user-supplied allocator honouring the documented contract"""
    r = c.struct("ZyanAllocator", name)
    r.allocs = []

    def mk(st, inst, pp, es, n, old):
        I = c.I
        size = es * n
        ok = st.assume(K(MAXB) - size)
        if ok is None:
            return None
        ok = ok.fork()
        I.nfresh += 1
        b = Region("block#%d" % I.nfresh, size, mode="array", kind="heap")
        b.init_content = "uninit"
        b.es, b.n = es, n
        b.owner = r
        I.regions[b.id] = b
        if old is not None and isinstance(old, Ptr) and old.r is not NULLR:
            ok.logs[b.id] = (None, Wr("copy", ZERO, old.r.size if old.r.size is not None else size, (old.r, ZERO, ok.logs.get(old.r.id), None)))
            ok.freed = ok.freed | {old.r.id}
        return ok, b

    def request(I, st, inst, es, n, what):
        I.site("alloccontract", inst, "%s asks for a positive number of positive-sized elements" % what)
        for q, nm in ((es, "element size"), (n, "element count")):
            if not st.entails(q - 1):
                I.issue("alloccontract", "%s requested with %s %r that may be zero" % (what, nm, q), st, inst, q - 1)

    def allocate(I, st, inst, a):
        es, n = I.num(st, a[2], inst), I.num(st, a[3], inst)
        request(I, st, inst, es, n, "allocation")
        out = []
        if fails:
            f = st.fork()
            err = V(term("allocerr", ("allocate",) + I.callid(), 1 << 31, (1 << 32) - 1))
            I.emit(f, "alloc", "allocate", [es, n], err, inst, x=None)
            out.append((f, err))
        m = mk(st, inst, a[1], es, n, None)
        if m:
            ok, b = m
            I.emit(ok, "alloc", "allocate", [es, n], K(c.w.ST["SUCCESS"]), inst, x=Ptr(b))
            for t in I.store(ok, a[1], Ptr(b), 8, inst):
                out.append((t, passing(I, "allocate")))
        return out

    def reallocate(I, st, inst, a):
        es, n = I.num(st, a[2], inst), I.num(st, a[3], inst)
        request(I, st, inst, es, n, "reallocation")
        out = []
        for t, old in I.load(st, a[1], 8, True, inst):
            checkblock(I, t, inst, old, "reallocate")
            f = t.fork()
            err = V(term("allocerr", ("reallocate",) + I.callid(), 1 << 31, (1 << 32) - 1))
            I.emit(f, "alloc", "reallocate", [old, es, n], err, inst, x=None)
            out.append((f, err))
            m = mk(t, inst, a[1], es, n, old)
            if m:
                ok, b = m
                I.emit(ok, "alloc", "reallocate", [old, es, n], K(c.w.ST["SUCCESS"]), inst, x=Ptr(b))
                for u in I.store(ok, a[1], Ptr(b), 8, inst):
                    out.append((u, passing(I, "reallocate")))
        return out

    def checkblock(I, st, inst, p, what):
        I.site("alloccontract", inst, "%s is given a live block of this container" % what)
        if not isinstance(p, Ptr) or p.r.kind not in ("heap", "node"):
            I.issue("alloccontract", "%s of %r, which no allocator call returned" % (what, p), st, inst, imprecise=isinstance(p, Ptr) and p.r.imprecise)
            return False
        if p.r.id in st.freed:
            I.issue("alloccontract", "%s of a block that was already released" % what, st, inst)
            return False
        if p.o.const() != 0:
            I.issue("alloccontract", "%s of an interior pointer %r" % (what, p), st, inst)
        return True

    def deallocate(I, st, inst, a):
        p, es, n = a[1], I.num(st, a[2], inst), I.num(st, a[3], inst)
        if checkblock(I, st, inst, p, "deallocate") and p.r.size is not None:
            d = es * n - p.r.size
            if not st.entails_eq(d):
                I.issue("alloccontract", "deallocate told %r*%r bytes for a block of %r" % (es, n, p.r.size), st, inst,
                        d if not st.entails(d) else -d)
        out = []
        ok = st.fork()
        I.emit(ok, "alloc", "deallocate", [p, es, n], K(c.w.ST["SUCCESS"]), inst)
        if isinstance(p, Ptr):
            ok.freed = ok.freed | {p.r.id}
        out.append((ok, passing(I, "deallocate")))
        if dealloc_fails:
            f = st.fork()
            err = V(term("allocerr", ("deallocate",) + I.callid(), 1 << 31, (1 << 32) - 1))
            I.emit(f, "alloc", "deallocate", [p, es, n], err, inst)
            out.append((f, err))
        return out
    c.set(r, "ZyanAllocator", "allocate", Ptr(c.fnptr("allocate", allocate)))
    c.set(r, "ZyanAllocator", "reallocate", Ptr(c.fnptr("reallocate", reallocate)))
    c.set(r, "ZyanAllocator", "deallocate", Ptr(c.fnptr("deallocate", deallocate)))
    r.fnames = {n: c.st.getcell(r, c.w.lay.off("ZyanAllocator", n))[1] for n in ("allocate", "reallocate", "deallocate")}
    return r


def passing(I, name):
    """what a callback that does not fail returns: any status without the error bit"""
    return V(term("okstatus", (name,) + I.callid(), 0, (1 << 31) - 1))


def destructor_model(c):
    def destructor(I, st, inst, a):
        st = st.fork()
        p = a[0]
        if isinstance(p, Ptr):
            I.addr(st, p, K(1), inst, False, "element passed to the destructor")
        I.emit(st, "cb", "destructor", a, None, inst)
        return [(st, None)]
    return destructor


def constructor_model(c, es):
    def constructor(I, st, inst, a):
        out = []
        ok = st.fork()
        for t, r, o in I.addr(ok, a[0], es, inst, True, "element passed to the constructor"):
            t = t.fork()
            I.range_write(t, "opaque", r, o, es, ZERO, ("constructed",))
            I.emit(t, "cb", "constructor", a, K(c.w.ST["SUCCESS"]), inst)
            out.append((t, passing(I, "constructor")))
            f = t.fork()
            err = V(term("ctorerr", I.callid(), 1 << 31, (1 << 32) - 1))
            f.ev = st.ev
            I.emit(f, "cb", "constructor", a, err, inst)
            out.append((f, err))
        return out
    return constructor


def vector(c, name="vector", dyn=True, es=None, base=0, holder=None, destructor=True, minsize=0, cap=None, alloc=None):
    """a valid vector instance in an arbitrary reachable state"""
    v = Vec()
    v.c, v.name, v.base, v.dyn = c, name, base, dyn
    v.reg = holder or c.struct("ZyanVector", name)
    v.size = c.sym(name + ".size", minsize, MAXB)
    v.cap = c.sym(name + ".capacity", 1, MAXB) if cap is None else cap
    v.es = c.sym(name + ".element_size", 1, MAXB) if es is None else es
    v.data = c.region(name + ".data", v.cap * v.es, "array", kind="heap" if dyn else "buffer")
    v.data.es, v.data.n = v.es, v.cap
    c.assume(v.cap - v.size)
    c.assume(K(MAXB) - v.cap * v.es)
    v.alloc = (alloc or allocator(c, name + ".allocator")) if dyn else None
    v.gf = c.sym(name + ".growth_factor", 1, 255) if dyn else K(1)
    v.shr = c.sym(name + ".shrink_threshold", 0, 255) if dyn else ZERO
    v.dtor = c.fnptr("destructor", destructor_model(c), maybe_null=True) if destructor else None
    v.f = {"allocator": Ptr(v.alloc) if dyn else NULLP, "growth_factor": v.gf, "shrink_threshold": v.shr, "size": v.size,
           "capacity": v.cap, "element_size": v.es, "destructor": Ptr(v.dtor) if v.dtor else NULLP, "data": Ptr(v.data)}
    for k, x in v.f.items():
        c.set(v.reg, "ZyanVector", k, x, base, 1 if k in ("growth_factor", "shrink_threshold") else 8)
    v.ptr = Ptr(v.reg, K(base))
    return v


def vcell(c, ex, v, f):
    return c.cell(ex, v.reg, "ZyanVector", f, v.base)


CONF = ("allocator", "growth_factor", "shrink_threshold", "element_size", "destructor")


def inv(c, ex, v, props=("V02",), what="vector"):
    """representation invariant on one exit"""
    nm = what
    for f in CONF:
        c.prove_eq(props, "%s keeps its %s" % (nm, f), ex, vcell(c, ex, v, f), v.f[f])
    size, cap, data = vcell(c, ex, v, "size"), vcell(c, ex, v, "capacity"), vcell(c, ex, v, "data")
    if not isinstance(size, P) or not isinstance(cap, P):
        c.ob(props, "%s size/capacity are known" % nm, "undecided", repr((size, cap)))
        return None
    c.prove(props, "%s: size never exceeds capacity" % nm, ex, cap - size)
    c.prove(props, "%s: capacity is at least the minimum" % nm, ex, cap - 1)
    if not isinstance(data, Ptr):
        c.require(props, "%s: data pointer is valid" % nm, ex, False, repr(data))
        return None
    st = ex.st if isinstance(ex, Exit) else ex
    c.require(props, "%s: data pointer refers to a live block" % nm, ex, data.r is not NULLR and data.r.id not in st.freed and data.o.const() == 0,
              "data=%r" % data)
    if data.r.size is not None:
        c.prove_eq(props, "%s: capacity equals the allocated block" % nm, ex, cap * v.es, data.r.size)
    # no block leaked or lost
    for e in st.events():
        if isinstance(e, Ev) and e.kind == "alloc" and e.name in ("allocate", "reallocate") and e.x is not None:
            b = e.x.r
            if b is not data.r and b.id not in st.freed:
                c.require(props, "%s: no allocated block is lost" % nm, ex, False, repr(e))
    if not v.dyn:
        c.require(props, "%s: fixed buffer is never replaced" % nm, ex, data.r is v.data, repr(data))
        c.prove_eq(props, "%s: fixed capacity never changes" % nm, ex, cap, v.cap)
    return size, cap, data


def capacity_policy(c, ex, v, need, shrinking=None, props=("V02",)):
    """storage moves only when the documented policy asks for it (need: element count after the call)"""
    if not v.dyn:
        return
    st = ex.st if isinstance(ex, Exit) else ex
    size, cap, data = vcell(c, ex, v, "size"), vcell(c, ex, v, "capacity"), vcell(c, ex, v, "data")
    if not (isinstance(cap, P) and isinstance(data, Ptr)):
        return
    ret = getattr(ex, "ret", None)
    moved = data.r is not v.data
    if moved:
        c.prove(props, "a new capacity is at most the needed size times the growth factor", ex, need * v.gf - cap) \
            if not st.entails(K(1) - cap) else None
    grow, fit = st.split(need - v.cap - 1)
    if fit:
        t = fit if shrinking is None else fit.assume(-v.shr)     # a threshold of zero disables shrinking
        if t is not None:
            c.require(props, "storage stays in place when the result fits the capacity" + (" and shrinking is disabled" if shrinking == "auto" else ""),
                      Exit(t, ret), not moved, repr(data))
            c.prove_eq(props, "capacity is unchanged when the storage stays", Exit(t, ret), cap, v.cap)


def unchanged(c, ex, v, props, what="vector", content=True, capacity=True):
    """the instance is exactly as before the call"""
    for f in ("size",) + (("capacity",) if capacity else ()):
        c.prove_eq(props, "%s %s is unchanged" % (what, f), ex, vcell(c, ex, v, f), v.f[f])
    d = vcell(c, ex, v, "data")
    if capacity:
        c.require(props, "%s storage is unchanged" % what, ex, isinstance(d, Ptr) and d.r is v.data and d.o.const() == 0, repr(d))
    if content and isinstance(d, Ptr):
        c.seq(props, "%s elements are unchanged" % what, ex, d.r, ZERO, v.size, v.data, ZERO, v.es)


def dtor_events(ex):
    st = ex.st if isinstance(ex, Exit) else ex
    return flat_events(st.events(), lambda e: e.kind == "cb" and e.name == "destructor")


def flat_events(evs, pred):
    """[(event, [enclosing loops])]"""
    out = []

    def walk(es, ctx):
        for e in es:
            if isinstance(e, LoopEv):
                for p in e.paths:
                    walk(p.events, ctx + [(e, p)])
            elif pred(e):
                out.append((e, ctx))
    walk(evs, [])
    return out


def dtor_cover(c, ex, v, props, lo, hi, region=None, what="destructor"):
    """the destructor ran exactly once on each element of [lo,hi) and on nothing else (no-op if there is none)"""
    st = ex.st if isinstance(ex, Exit) else ex
    region = region or v.data
    if v.dtor is None:
        return c.require(props, "%s: none registered, none called" % what, ex, not dtor_events(ex))
    isn = st.null.get(v.dtor.id)
    evs = dtor_events(ex)
    n = hi - lo
    t = st.assume(n - 1)      # states with at least one element to destroy
    if isn is True:
        return c.require(props, "%s: not called when none is registered" % what, ex, not evs)
    if t is None:
        # nothing to destroy: no call may have happened
        def empty():
            for e, ctx in evs:
                u = st
                for le, pth in ctx:
                    u = u.assume(le.count - 1)
                    if u is None:
                        break
                if u is not None:
                    return u, e
            return None
        bad = empty()
        if bad is None:
            return c.ob(props, "%s: not called when no element is removed" % what, "ok")
        return c.require(props, "%s: not called when no element is removed" % what, Exit(bad[0], getattr(ex, "ret", None)), False, repr(bad[1]))
    if isn is None:
        # presence of a destructor was never tested: some element is not destroyed unless called anyway
        u = t.fork()
        u.null[v.dtor.id] = False
        return c.require(props, "%s: runs for every removed element" % what, Exit(u, getattr(ex, "ret", None)), False, "destructor not consulted")
    # collect argument positions
    iv = []
    for e, ctx in evs:
        a = e.args[0]
        if not isinstance(a, Ptr) or a.r is not region:
            return c.require(props, "%s: is given an element of the container" % what, ex, False, repr(a))
        live = t
        for le, pth in ctx:
            live = live and live.assume(le.count - 1)
        if len(ctx) == 0:
            iv.append((a.o, None, None))
        elif len(ctx) == 1:
            iv.append((a.o, ctx[0][0], ctx[0][1]))
        else:
            return c.ob(props, "%s: runs once per removed element" % what, "undecided", "nested loops")
    if not iv:
        return c.require(props, "%s: runs for every removed element" % what, Exit(t, getattr(ex, "ret", None)), False, "no destructor call on this path")
    if len(iv) == 1 and iv[0][1] is not None:
        off, le, pth = iv[0]
        if len(le.paths) != 1:
            return c.ob(props, "%s: runs once per removed element" % what, "undecided", "conditional destructor call in a loop")
        j = V(le.j)
        first = subst(off, {le.j.id: ZERO})
        step = subst(off, {le.j.id: j + 1}) - off
        ok = True
        c.prove_eq(props, "%s: number of calls equals the number of removed elements" % what, Exit(t, getattr(ex, "ret", None)), le.count, n)
        if step == v.es:
            c.prove_eq(props, "%s: starts at the first removed element" % what, Exit(t, getattr(ex, "ret", None)), first, lo * v.es)
        elif step == -v.es:
            c.prove_eq(props, "%s: starts at the last removed element" % what, Exit(t, getattr(ex, "ret", None)), first, (hi - 1) * v.es)
        else:
            c.prove_eq(props, "%s: visits consecutive elements" % what, Exit(t, getattr(ex, "ret", None)), step, v.es)
        return
    if all(x[1] is None for x in iv):
        # straight-line calls: each covers one element
        c.prove_eq(props, "%s: number of calls equals the number of removed elements" % what, Exit(t, getattr(ex, "ret", None)), K(len(iv)), n)
        seen = []
        for off, _, _ in iv:
            c.prove(props, "%s: argument is a removed element (low)" % what, Exit(t, getattr(ex, "ret", None)), off - lo * v.es)
            c.prove(props, "%s: argument is a removed element (high)" % what, Exit(t, getattr(ex, "ret", None)), (hi - 1) * v.es - off)
        if len(iv) == 1:
            c.prove_eq(props, "%s: argument is the removed element" % what, Exit(t, getattr(ex, "ret", None)), iv[0][0], lo * v.es)
        return
    c.ob(props, "%s: runs once per removed element" % what, "undecided", "mixed call shapes")


def before_mutation(c, ex, v, props):
    """destructor calls happen while the removed element's bytes are still in place (typestate order)"""
    return


def no_dtor(c, ex, v, props, what="destructor: no element is destroyed"):
    c.require(props, what, ex, not live_dtor(ex), repr(dtor_events(ex)[:1]))


def live_dtor(ex):
    st = ex.st if isinstance(ex, Exit) else ex
    for e, ctx in dtor_events(ex):
        u = st
        for le, p in ctx:
            u = u and u.assume(le.count - 1)
        if u is not None:
            return True
    return False


def allocfail(ex):
    """the status atom of the failed allocator call on this path, if any"""
    st = ex.st if isinstance(ex, Exit) else ex
    for e in st.events():
        if isinstance(e, Ev) and e.kind == "alloc" and isinstance(e.ret, P) and e.ret.const() is None:
            return e
    return None


def failcode(c, ex, props, codes, what):
    """a failing exit returns one of `codes` or passes on the failing callee's own status"""
    st = ex.st
    ok = isinstance(ex.ret, P) and ex.ret.const() is not None and c.w.stname(ex.ret.const()) in codes
    if not ok and isinstance(ex.ret, P) and ex.ret.const() is None:
        for e in st.events():
            if isinstance(e, Ev) and isinstance(e.ret, P) and e.ret == ex.ret:
                ok = True
    c.require(props, what, ex, ok, "returned %r" % (ex.ret,))


def statuses(c, props, conds, what=""):
    """conds: list of (status name, P condition >= 0 | None): an exit returns the status iff the condition holds"""
    for ex in c.exits:
        for name, goal in conds:
            if goal is None:
                continue
            if c.isstatus(ex, name):
                c.prove(props, "%s is returned only when it applies" % name, ex, goal)
            else:
                c.prove(props, "%s is returned whenever it applies" % name, ex, -goal - 1)


def null_arg(w, fn, build_args, props, what, mk, mem):
    """a null required pointer is rejected with INVALID_ARGUMENT and nothing is touched"""
    c = Case(w, fn, "null %s" % what, mem)
    args, vs = mk(c)
    c.run(*args)
    if not c.exits:
        c.ob(props, "null %s is rejected" % what, "undecided", "no exit")
    for ex in c.exits:
        c.require(props, "null %s is rejected with INVALID_ARGUMENT" % what, ex, c.isstatus(ex, "INVALID_ARGUMENT"), "returned %r" % (ex.ret,))
        for v in vs:
            unchanged(c, ex, v, props, content=False)


MEM = {"mem": ("V01",)}


def elements(c, n, es, name="elements"):
    return c.region(name, n * es, "array")


# ---------------------------------------------------------------------------------------- contracts
def growth_fail_ok(c, ex, v, need, props=("V03",)):
    """a failing exit of a growing operation: the only allowed reasons"""
    if v.dyn:
        e = allocfail(ex)
        if e is not None:
            c.prove_eq(props, "the allocator's own error is returned", ex, ex.ret, e.ret)
        else:
            # an arithmetic impossibility: the request cannot be represented
            big = K(U64) - need * v.es
            c.prove(props, "failure without an allocator error only for unrepresentable sizes", ex,
                    (need * v.gf) * v.es - (1 << 63))
        c.require(props, "failure is a failure status", ex, c.success(ex) is False, repr(ex.ret))
    else:
        c.require(props, "full fixed buffer is reported as INSUFFICIENT_BUFFER_SIZE", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret))
        c.prove(props, "fixed buffer overflow is reported only when it happens", ex, need - v.cap - 1)


def insert_range(w, fn, dyn, single, mem):
    c = Case(w, fn, "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    idx = c.sym("index")
    n = ONE if single else c.sym("count", 1)
    src = elements(c, n, v.es)
    c.assume(K(MAXB) - n * v.es)
    c.run(*([v.ptr, idx, Ptr(src)] + ([] if single else [n])))
    check_insert(c, v, idx, n, lambda st, p: None, src)


def check_insert(c, v, idx, n, _, src):
    for ex in c.exits:
        if c.isstatus(ex, "OUT_OF_RANGE"):
            c.prove(("V07",), "OUT_OF_RANGE is returned only when it applies", ex, idx - v.size - 1)
        else:
            c.prove(("V07",), "OUT_OF_RANGE is returned whenever it applies", ex, v.size - idx)
        no_dtor(c, ex, v, ("V04",))
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                capacity_policy(c, ex, v, v.size + n)
                c.prove_eq(("V05",), "size grows by the number of inserted elements", ex, size, v.size + n)
                c.seq(("V05",), "elements before the insertion point keep their place", ex, data.r, ZERO, idx, v.data, ZERO, v.es)
                c.seq(("V05",), "inserted elements appear at the insertion point", ex, data.r, idx, idx + n, src, -idx, v.es)
                c.seq(("V05",), "elements behind the insertion point move up in order", ex, data.r, idx + n, v.size + n, v.data, -n, v.es)
        else:
            if not c.isstatus(ex, "OUT_OF_RANGE"):
                growth_fail_ok(c, ex, v, v.size + n)
            unchanged(c, ex, v, ("V03",))


def push_back(w, dyn, mem):
    c = Case(w, "ZyanVectorPushBack", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    src = elements(c, ONE, v.es, "element")
    c.run(v.ptr, Ptr(src))
    for ex in c.exits:
        no_dtor(c, ex, v, ("V04",))
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                c.prove_eq(("V05",), "size grows by one", ex, size, v.size + 1)
                capacity_policy(c, ex, v, v.size + 1)
                c.seq(("V05",), "existing elements keep their place", ex, data.r, ZERO, v.size, v.data, ZERO, v.es)
                c.seq(("V05",), "the new element is last", ex, data.r, v.size, v.size + 1, src, -v.size, v.es)
        else:
            growth_fail_ok(c, ex, v, v.size + 1)
            unchanged(c, ex, v, ("V03",))


def emplace(w, fn, dyn, ex_, mem):
    c = Case(w, fn, "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    idx = c.sym("index") if ex_ else v.size
    out = c.out("element")
    ctor = c.fnptr("constructor", constructor_model(c, v.es), maybe_null=True)
    c.run(*([v.ptr] + ([idx] if ex_ else []) + [Ptr(out), Ptr(ctor)]))
    for ex in c.exits:
        if ex_:
            if c.isstatus(ex, "OUT_OF_RANGE"):
                c.prove(("V07",), "OUT_OF_RANGE is returned only when it applies", ex, idx - v.size - 1)
            else:
                c.prove(("V07",), "OUT_OF_RANGE is returned whenever it applies", ex, v.size - idx)
        no_dtor(c, ex, v, ("V04",))
        r = inv(c, ex, v)
        ctors = flat_events(ex.st.events(), lambda e: e.kind == "cb" and e.name == "constructor")
        cfail = [e for e, _ in ctors if e.ret.const() is None]
        if c.success(ex):
            isn = ex.st.null.get(ctor.id)
            if r:
                size, cap, data = r
                c.prove_eq(("V05",), "size grows by one", ex, size, v.size + 1)
                c.seq(("V05",), "elements before the insertion point keep their place", ex, data.r, ZERO, idx, v.data, ZERO, v.es)
                c.seq(("V05",), "elements behind the insertion point move up in order", ex, data.r, idx + 1, v.size + 1, v.data, K(-1), v.es)
                capacity_policy(c, ex, v, v.size + 1)
                c.prove_eq(("V05",), "the new element's address is reported", ex, c.outval(ex, out), Ptr(data.r, idx * v.es))
                if isn is False:
                    c.require(("V04",), "constructor runs exactly once on the new element", ex, len(ctors) == 1 and not ctors[0][1], repr(ctors))
                    if len(ctors) == 1:
                        c.prove_eq(("V04",), "constructor is given the new element", ex, ctors[0][0].args[0], Ptr(data.r, idx * v.es))
                else:
                    c.require(("V04",), "a missing constructor is not called", ex, not ctors and isn is True, repr(ctors))
            c.require(("V03",), "a constructor failure is not swallowed", ex, not cfail, repr(cfail))
        else:
            if cfail:
                c.prove_eq(("V03",), "the constructor's own error is returned", ex, ex.ret, cfail[0].ret)
                unchanged(c, ex, v, ("V03",), capacity=False)
            else:
                if not c.isstatus(ex, "OUT_OF_RANGE"):
                    growth_fail_ok(c, ex, v, v.size + 1)
                unchanged(c, ex, v, ("V03",))


def shrinkfail(c, ex, v):
    """a failed shrink must not turn a finished removal into an error"""
    return allocfail(ex)


def delete_range(w, fn, dyn, single, mem):
    c = Case(w, fn, "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    idx = c.sym("index")
    n = ONE if single else c.sym("count", 1)
    c.run(*([v.ptr, idx] + ([] if single else [n])))
    for ex in c.exits:
        oor = idx + n - v.size - 1
        if c.isstatus(ex, "OUT_OF_RANGE"):
            c.prove(("V07",), "OUT_OF_RANGE is returned only when it applies", ex, oor)
        else:
            c.prove(("V07",), "OUT_OF_RANGE is returned whenever it applies", ex, -oor - 1)
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                capacity_policy(c, ex, v, v.size - n, "auto")
                c.prove_eq(("V05",), "size drops by the number of removed elements", ex, size, v.size - n)
                c.seq(("V05",), "elements before the removed range keep their place", ex, data.r, ZERO, idx, v.data, ZERO, v.es)
                c.seq(("V05",), "elements behind the removed range close the gap in order", ex, data.r, idx, v.size - n, v.data, n, v.es)
            dtor_cover(c, ex, v, ("V04",), idx, idx + n)
        else:
            failed_removal(c, ex, v)


def failed_removal(c, ex, v):
    c.require(("V03",), "a removal fails only for its documented reasons", ex, c.isstatus(ex, "OUT_OF_RANGE"), "returned %r" % (ex.ret,))
    unchanged(c, ex, v, ("V03",))
    no_dtor(c, ex, v, ("V04",), "destructor: not called by a failing call")


def pop_back(w, dyn, mem):
    c = Case(w, "ZyanVectorPopBack", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    c.run(v.ptr)
    for ex in c.exits:
        if c.isstatus(ex, "OUT_OF_RANGE"):
            c.prove(("V07",), "OUT_OF_RANGE is returned only for an empty vector", ex, -v.size)
        else:
            c.prove(("V07",), "OUT_OF_RANGE is returned for an empty vector", ex, v.size - 1)
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                capacity_policy(c, ex, v, v.size - 1, "auto")
                c.prove_eq(("V05",), "size drops by one", ex, size, v.size - 1)
                c.seq(("V05",), "remaining elements keep their place", ex, data.r, ZERO, v.size - 1, v.data, ZERO, v.es)
            dtor_cover(c, ex, v, ("V04",), v.size - 1, v.size)
        else:
            failed_removal(c, ex, v)


def resize(w, fn, dyn, mode, mem):
    """mode: 'plain' (Resize), 'init' (ResizeEx with initializer), 'noinit', 'clear'"""
    c = Case(w, fn, ("dynamic" if dyn else "fixed buffer") + (", initializer" if mode == "init" else ""), mem)
    v = vector(c, "vector", dyn)
    n = ZERO if mode == "clear" else c.sym("new_size")
    args = [v.ptr]
    src = None
    if mode == "plain":
        args += [n]
    elif mode == "init":
        src = elements(c, ONE, v.es, "initializer")
        args += [n, Ptr(src)]
    elif mode == "noinit":
        args += [n, NULLP]
    c.run(*args)
    for ex in c.exits:
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                capacity_policy(c, ex, v, n, "auto")
                c.prove_eq(("V05",), "size is the requested size", ex, size, n)
                t = ex.st.split(n - v.size)
                for u, lim in ((t[0], v.size), (t[1], n)):
                    if u is not None:
                        c.seq(("V05",), "surviving elements keep their place", Exit(u, ex.ret), data.r, ZERO, lim, v.data, ZERO, v.es)
                if src is not None:
                    es = v.es
                    p = None

                    def want(st, p):
                        return None
                    c_initseq(c, ex, data.r, v, n, src)
            t = ex.st.split(v.size - n)
            if t[0] is not None:
                dtor_cover(c, Exit(t[0], ex.ret), v, ("V04",), n, v.size)
            if t[1] is not None:
                no_dtor(c, Exit(t[1], ex.ret), v, ("V04",))
        else:
            growth_fail_ok(c, ex, v, n)
            c.prove(("V03",), "shrinking never fails", ex, n - v.size - 1)
            unchanged(c, ex, v, ("V03",))
            no_dtor(c, ex, v, ("V04",), "destructor: not called by a failing call")


def c_initseq(c, ex, reg, v, n, src):
    p = c.sym("p")
    b = c.sym("b")
    t = ex.st.assume(p - v.size)
    t = t and t.assume(n - 1 - p)
    t = t and t.assume(v.es - 1 - b)
    if t is None:
        return c.ob(("V05",), "new elements are copies of the initializer", "ok", "vacuous")
    for u, val in c.I.read(t, reg, p * v.es + b, 1, False):
        r = c.eqv(u, val, c.initial(u, src, b))
        c.ob(("V05",), "new elements are copies of the initializer", r[0], r[1] + (c.pathinfo(ex) if r[0] != "ok" else ""))


def reserve(w, dyn, mem):
    c = Case(w, "ZyanVectorReserve", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    n = c.sym("new_capacity")
    c.run(v.ptr, n)
    for ex in c.exits:
        r = inv(c, ex, v)
        no_dtor(c, ex, v, ("V04",))
        if c.success(ex):
            if r:
                size, cap, data = r
                c.prove(("V05",), "the reserved capacity is available", ex, cap - n)
                c.prove(("V05",), "reserving never lowers the capacity", ex, cap - v.cap)
                capacity_policy(c, ex, v, n)
                c.prove_eq(("V05",), "reserving keeps the size", ex, size, v.size)
                c.seq(("V05",), "elements keep their place", ex, data.r, ZERO, v.size, v.data, ZERO, v.es)
        else:
            if dyn and allocfail(ex) is not None:
                c.prove_eq(("V03",), "the allocator's own error is returned", ex, ex.ret, allocfail(ex).ret)
            elif not dyn:
                c.require(("V03",), "fixed buffer is reported as INSUFFICIENT_BUFFER_SIZE", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret))
                c.prove(("V03",), "fixed buffer overflow is reported only when it happens", ex, n - v.cap - 1)
            else:
                c.prove(("V03",), "failure without an allocator error only for unrepresentable sizes", ex, n * v.es - (1 << 63))
            unchanged(c, ex, v, ("V03",))


def shrink(w, dyn, mem):
    c = Case(w, "ZyanVectorShrinkToFit", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    c.run(v.ptr)
    for ex in c.exits:
        r = inv(c, ex, v)
        no_dtor(c, ex, v, ("V04",))
        if c.success(ex):
            if r:
                size, cap, data = r
                c.prove_eq(("V05",), "shrinking keeps the size", ex, size, v.size)
                c.seq(("V05",), "elements keep their place", ex, data.r, ZERO, v.size, v.data, ZERO, v.es)
                if dyn:
                    for t, want in zip(ex.st.split(v.size - 1), (v.size, ONE)):
                        if t is not None:
                            c.prove_eq(("V02",), "shrinking makes the capacity match the size", Exit(t, ex.ret), cap, want)
        else:
            if dyn and allocfail(ex) is not None:
                c.prove_eq(("V03",), "the allocator's own error is returned", ex, ex.ret, allocfail(ex).ret)
            else:
                c.require(("V03",), "shrinking fails only through the allocator", ex, False, repr(ex.ret))
            unchanged(c, ex, v, ("V03",))


def set_(w, dyn, mem):
    c = Case(w, "ZyanVectorSet", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    idx = c.sym("index")
    src = elements(c, ONE, v.es, "value")
    c.run(v.ptr, idx, Ptr(src))
    for ex in c.exits:
        oor(c, ex, v, idx)
        r = inv(c, ex, v)
        if c.success(ex):
            if r:
                size, cap, data = r
                c.prove_eq(("V05",), "size is unchanged", ex, size, v.size)
                c.seq(("V05",), "other elements keep their value (below)", ex, data.r, ZERO, idx, v.data, ZERO, v.es)
                c.seq(("V05",), "other elements keep their value (above)", ex, data.r, idx + 1, v.size, v.data, ZERO, v.es)
                c.seq(("V05",), "the element takes the new value", ex, data.r, idx, idx + 1, src, -idx, v.es)
            dtor_cover(c, ex, v, ("V04",), idx, idx + 1)
        else:
            c.require(("V03",), "fails only with OUT_OF_RANGE", ex, c.isstatus(ex, "OUT_OF_RANGE"), repr(ex.ret))
            unchanged(c, ex, v, ("V03",))
            no_dtor(c, ex, v, ("V04",))


def oor(c, ex, v, idx, props=("V07",)):
    if c.isstatus(ex, "OUT_OF_RANGE"):
        c.prove(props, "OUT_OF_RANGE is returned only when it applies", ex, idx - v.size)
    else:
        c.prove(props, "OUT_OF_RANGE is returned whenever it applies", ex, v.size - 1 - idx)


def swap(w, dyn, mem):
    c = Case(w, "ZyanVectorSwapElements", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    a, b = c.sym("first"), c.sym("second")
    c.run(v.ptr, a, b)
    for ex in c.exits:
        r = inv(c, ex, v)
        no_dtor(c, ex, v, ("V04",))
        st = ex.st
        if c.isstatus(ex, "OUT_OF_RANGE"):
            # at least one index is out of range
            t = st.assume(v.size - 1 - a)
            t = t and t.assume(v.size - 1 - b)
            c.require(("V07",), "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
        else:
            c.prove(("V07",), "OUT_OF_RANGE is returned whenever it applies", ex, v.size - 1 - a)
            c.prove(("V07",), "OUT_OF_RANGE is returned whenever it applies", ex, v.size - 1 - b)
        if c.success(ex):
            if r:
                size, cap, data = r
                c.prove_eq(("V05",), "size is unchanged", ex, size, v.size)
                for g in (lambda t: t.assume(a - b - 1), lambda t: t.assume(b - a - 1), lambda t: t.assume_eq(a - b)):
                    t = g(st)
                    if t is None:
                        continue
                    c.seq(("V05",), "first position holds the second element", Exit(t, ex.ret), data.r, a, a + 1, v.data, b - a, v.es)
                    c.seq(("V05",), "second position holds the first element", Exit(t, ex.ret), data.r, b, b + 1, v.data, a - b, v.es)
                for x, y in ((a, b), (b, a)):
                    t = st.assume(y - x)
                    if t is None:
                        continue
                    c.seq(("V05",), "elements below keep their value", Exit(t, ex.ret), data.r, ZERO, x, v.data, ZERO, v.es)
                    c.seq(("V05",), "elements between keep their value", Exit(t, ex.ret), data.r, x + 1, y, v.data, ZERO, v.es)
                    c.seq(("V05",), "elements above keep their value", Exit(t, ex.ret), data.r, y + 1, v.size, v.data, ZERO, v.es)
        else:
            if not c.isstatus(ex, "OUT_OF_RANGE"):
                c.require(("V03",), "fails only with OUT_OF_RANGE or INSUFFICIENT_BUFFER_SIZE", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret))
                c.prove_eq(("V03",), "lack of room is reported only for a full vector", ex, v.size, v.cap)
            unchanged(c, ex, v, ("V03",))


def getters(w, mem):
    for fn in ("ZyanVectorGet", "ZyanVectorGetMutable"):
        c = Case(w, fn, "any", mem)
        v = vector(c, "vector", True)
        idx = c.sym("index")
        c.run(v.ptr, idx)
        for ex in c.exits:
            unchanged(c, ex, v, ("V03",))
            isnull = isinstance(ex.ret, Ptr) and ex.ret.r is NULLR
            if isnull:
                c.prove(("V07",), "null is returned only for an index out of range", ex, idx - v.size)
            else:
                c.prove(("V07",), "null is returned for an index out of range", ex, v.size - 1 - idx)
                c.prove_eq(("V05",), "the element at the index is returned", ex, ex.ret, Ptr(v.data, idx * v.es))
        c = Case(w, fn, "null vector", mem)
        c.run(NULLP, c.sym("index"))
        for ex in c.exits:
            c.require(("V07",), "null is returned for a null vector", ex, isinstance(ex.ret, Ptr) and ex.ret.r is NULLR)
    for fn in ("ZyanVectorGetPointer", "ZyanVectorGetPointerMutable"):
        c = Case(w, fn, "any", mem)
        v = vector(c, "vector", True)
        idx = c.sym("index")
        out = c.out("value")
        c.run(v.ptr, idx, Ptr(out))
        for ex in c.exits:
            oor(c, ex, v, idx)
            unchanged(c, ex, v, ("V03",))
            if c.success(ex):
                c.prove_eq(("V05",), "the element at the index is returned", ex, c.outval(ex, out), Ptr(v.data, idx * v.es))
            else:
                c.require(("V07",), "fails only with OUT_OF_RANGE", ex, c.isstatus(ex, "OUT_OF_RANGE"), repr(ex.ret))
    for fn, f in (("ZyanVectorGetCapacity", "capacity"), ("ZyanVectorGetSize", "size")):
        c = Case(w, fn, "any", mem)
        v = vector(c, "vector", True)
        out = c.out("out")
        c.run(v.ptr, Ptr(out))
        for ex in c.exits:
            unchanged(c, ex, v, ("V03",))
            c.require(("V07",), "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
            c.prove_eq(("V05",), "the current value is reported", ex, c.outval(ex, out), v.f[f])


def init(w, mem):
    # InitEx with a user allocator
    c = Case(w, "ZyanVectorInitEx", "any", mem)
    al = allocator(c)
    r = c.struct("ZyanVector", "vector")
    es, cap = c.sym("element_size"), c.sym("capacity")
    gf, sh = c.sym("growth_factor", 0, 255), c.sym("shrink_threshold", 0, 255)
    d = c.fnptr("destructor", destructor_model(c), maybe_null=True)
    c.run(Ptr(r), es, cap, Ptr(d), Ptr(al), gf, sh)
    check_init(c, r, es, cap, d, al, gf, sh)
    c = Case(w, "ZyanVectorInitCustomBuffer", "any", mem)
    r = c.struct("ZyanVector", "vector")
    es, cap = c.sym("element_size"), c.sym("capacity")
    buf = c.region("buffer", es * cap)
    d = c.fnptr("destructor", destructor_model(c), maybe_null=True)
    c.run(Ptr(r), es, Ptr(buf), cap, Ptr(d))
    for ex in c.exits:
        if c.success(ex):
            c.prove(("V07",), "zero element size is rejected", ex, es - 1)
            c.prove(("V07",), "zero capacity is rejected", ex, cap - 1)
            for f, x in (("size", ZERO), ("capacity", cap), ("element_size", es), ("data", Ptr(buf)), ("allocator", NULLP),
                         ("destructor", Ptr(d)), ("shrink_threshold", ZERO)):
                c.prove_eq(("V02",), "initialised %s" % f, ex, c.cell(ex, r, "ZyanVector", f), x)
            c.prove(("V02",), "growth factor is positive", ex, c.cell(ex, r, "ZyanVector", "growth_factor") - 1)
        else:
            c.require(("V07",), "bad arguments are INVALID_ARGUMENT", ex, c.isstatus(ex, "INVALID_ARGUMENT"))
            t = ex.st.assume(es - 1)
            t = t and t.assume(cap - 1)
            c.require(("V07",), "valid arguments are accepted", Exit(t, ex.ret) if t else ex, t is None)


def check_init(c, r, es, cap, d, al, gf, sh, reg=None):
    for ex in c.exits:
        bad = c.isstatus(ex, "INVALID_ARGUMENT")
        if c.success(ex):
            c.prove(("V07",), "zero element size is rejected", ex, es - 1)
            c.prove(("V07",), "a growth factor below one is rejected", ex, gf - 1)
            data = c.cell(ex, r, "ZyanVector", "data")
            ccap = c.cell(ex, r, "ZyanVector", "capacity")
            for f, x in (("size", ZERO), ("element_size", es), ("allocator", Ptr(al)), ("destructor", Ptr(d)), ("growth_factor", gf),
                         ("shrink_threshold", sh)):
                c.prove_eq(("V02",), "initialised %s" % f, ex, c.cell(ex, r, "ZyanVector", f), x)
            if isinstance(ccap, P):
                c.prove(("V02",), "initial capacity is at least the requested one", ex, ccap - cap)
                c.prove(("V02",), "initial capacity is at least the minimum", ex, ccap - 1)
                ok = isinstance(data, Ptr) and data.r.kind == "heap" and data.o.const() == 0 and data.r.id not in ex.st.freed
                c.require(("V02",), "data is the allocated block", ex, ok, repr(data))
                if ok:
                    c.prove_eq(("V02",), "capacity equals the allocated block", ex, ccap * es, data.r.size)
        elif bad:
            t = ex.st.assume(es - 1)
            t = t and t.assume(gf - 1)
            c.require(("V07",), "valid arguments are accepted", Exit(t, ex.ret) if t else ex, t is None)
        else:
            e = allocfail(ex)
            c.require(("V03",), "fails only through the allocator", ex, e is not None, repr(ex.ret))
            if e is not None:
                c.prove_eq(("V03",), "the allocator's own error is returned", ex, ex.ret, e.ret)


def destroy(w, dyn, mem):
    c = Case(w, "ZyanVectorDestroy", "dynamic" if dyn else "fixed buffer", mem)
    v = vector(c, "vector", dyn)
    c.run(v.ptr)
    for ex in c.exits:
        dtor_cover(c, ex, v, ("V04",), ZERO, v.size)
        de = [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "alloc"]
        if dyn:
            c.require(("V02", "M01"), "the storage is released exactly once", ex, len(de) == 1 and de[0].name == "deallocate", repr(de))
            if de and de[0].ret.const() is None:
                c.prove_eq(("V03",), "the allocator's own error is returned", ex, ex.ret, de[0].ret)
            else:
                c.require(("V03",), "succeeds", ex, c.success(ex) is True)
        else:
            c.require(("V02", "M01"), "a caller-provided buffer is never released", ex, not de, repr(de))
            c.require(("V03",), "succeeds", ex, c.success(ex) is True)
        # destructors run before the storage is released
        evs = ex.st.events()
        rel = [i for i, e in enumerate(evs) if isinstance(e, Ev) and e.kind == "alloc"]
        dt = [i for i, e in enumerate(evs) if isinstance(e, LoopEv) or (isinstance(e, Ev) and e.kind == "cb")]
        c.require(("V04",), "elements are destroyed before the storage is released", ex, not rel or not dt or max(dt) < min(rel))


def duplicate(w, mem):
    c = Case(w, "ZyanVectorDuplicateEx", "any", mem)
    s = vector(c, "source", True)
    al = allocator(c, "dst.allocator")
    r = c.struct("ZyanVector", "destination")
    cap = c.sym("capacity")
    gf, sh = c.sym("growth_factor", 0, 255), c.sym("shrink_threshold", 0, 255)
    c.run(Ptr(r), s.ptr, cap, Ptr(al), gf, sh)
    for ex in c.exits:
        unchanged(c, ex, s, ("V05",), "source")
        no_dtor(c, ex, s, ("V04",))
        if c.success(ex):
            dup_ok(c, ex, r, s, cap)
        else:
            e = allocfail(ex)
            if c.isstatus(ex, "INVALID_ARGUMENT"):
                c.prove(("V07",), "INVALID_ARGUMENT only for a growth factor below one", ex, -gf)
            else:
                c.require(("V03",), "fails only through the allocator", ex, e is not None and ex.ret == e.ret, repr(ex.ret))
    c = Case(w, "ZyanVectorDuplicateCustomBuffer", "any", mem)
    s = vector(c, "source", True)
    r = c.struct("ZyanVector", "destination")
    cap = c.sym("capacity", 1)
    buf = c.region("buffer", cap * s.es)
    c.assume(K(MAXB) - cap * s.es)
    c.run(Ptr(r), s.ptr, Ptr(buf), cap)
    for ex in c.exits:
        unchanged(c, ex, s, ("V05",), "source")
        no_dtor(c, ex, s, ("V04",))
        if c.success(ex):
            dup_ok(c, ex, r, s, cap)
        else:
            c.require(("V03",), "fails only with INSUFFICIENT_BUFFER_SIZE", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret))
            c.prove(("V03",), "lack of room is reported only when it happens", ex, s.size - cap - 1)


def dup_ok(c, ex, r, s, cap):
    size, ccap, data = [c.cell(ex, r, "ZyanVector", f) for f in ("size", "capacity", "data")]
    c.prove_eq(("V05",), "the copy has the source's size", ex, size, s.size)
    c.prove_eq(("V05",), "the copy has the source's element size", ex, c.cell(ex, r, "ZyanVector", "element_size"), s.es)
    c.prove_eq(("V04", "V05"), "the copy has the source's destructor", ex, c.cell(ex, r, "ZyanVector", "destructor"), s.f["destructor"])
    c.prove(("V02",), "size never exceeds capacity", ex, ccap - size)
    c.prove(("V02",), "the requested capacity is available", ex, ccap - cap)
    if isinstance(data, Ptr) and data.r.size is not None:
        c.prove_eq(("V02",), "capacity equals the block", ex, ccap * s.es, data.r.size)
        c.seq(("V05",), "the copy holds the same elements", ex, data.r, ZERO, s.size, s.data, ZERO, s.es)
        c.require(("V05",), "the copy owns separate storage", ex, data.r is not s.data)


def nulls(w, mem):
    """every exported vector operation rejects null instances / arguments"""
    def go(fn, what, mk):
        c = Case(w, fn, "null %s" % what, mem)
        args, vs = mk(c)
        c.run(*args)
        for ex in c.exits:
            c.require(("V07",), "null %s is rejected with INVALID_ARGUMENT" % what, ex, c.isstatus(ex, "INVALID_ARGUMENT"), "returned %r" % (ex.ret,))
            for v in vs:
                unchanged(c, ex, v, ("V07",), content=False)
        if not c.exits:
            c.ob(("V07",), "null %s is rejected" % what, "undecided", "no exit")
    S = lambda c: c.sym("x")
    NV = {
        "ZyanVectorDestroy": 0, "ZyanVectorPopBack": 0, "ZyanVectorClear": 0, "ZyanVectorShrinkToFit": 0,
        "ZyanVectorResize": 1, "ZyanVectorReserve": 1, "ZyanVectorDelete": 1, "ZyanVectorDeleteRange": 2, "ZyanVectorSwapElements": 2}
    for fn, k in NV.items():
        go(fn, "vector", lambda c, k=k: ([NULLP] + [c.sym("x%d" % i) for i in range(k)], []))

    def buf(c):
        return Ptr(c.region("arg", c.sym("argsize", 0, MAXB)))
    go("ZyanVectorResizeEx", "vector", lambda c: ([NULLP, S(c), buf(c)], []))
    for fn, pre in (("ZyanVectorPushBack", 0), ("ZyanVectorInsert", 1), ("ZyanVectorSet", 1)):
        go(fn, "vector", lambda c, pre=pre: ([NULLP] + [S(c)] * pre + [buf(c)], []))

        def mk(c, pre=pre):
            v = vector(c)
            return [v.ptr] + [S(c)] * pre + [NULLP], [v]
        go(fn, "element", mk)
    go("ZyanVectorInsertRange", "vector", lambda c: ([NULLP, S(c), buf(c), S(c)], []))

    def mk(c):
        v = vector(c)
        return [v.ptr, S(c), NULLP, S(c)], [v]
    go("ZyanVectorInsertRange", "elements", mk)
    for fn in ("ZyanVectorGetPointer", "ZyanVectorGetPointerMutable"):
        go(fn, "vector", lambda c: ([NULLP, S(c), Ptr(c.out("o"))], []))

        def mk2(c):
            v = vector(c)
            return [v.ptr, S(c), NULLP], [v]
        go(fn, "value", mk2)
    for fn in ("ZyanVectorGetCapacity", "ZyanVectorGetSize"):
        go(fn, "vector", lambda c: ([NULLP, Ptr(c.out("o"))], []))
    fnp = lambda c: Ptr(c.fnptr("cmp", None))
    for fn in ("ZyanVectorFind", "ZyanVectorBinarySearch"):
        go(fn, "vector", lambda c: ([NULLP, buf(c), Ptr(c.out("o")), fnp(c)], []))
        go(fn + "Ex", "vector", lambda c: ([NULLP, buf(c), Ptr(c.out("o")), fnp(c), S(c), S(c)], []))
    go("ZyanVectorEmplace", "vector", lambda c: ([NULLP, Ptr(c.out("o")), NULLP], []))
    go("ZyanVectorEmplaceEx", "vector", lambda c: ([NULLP, S(c), Ptr(c.out("o")), NULLP], []))
    B = lambda c, n: c.sym(n, 0, 255)
    go("ZyanVectorInitEx", "vector", lambda c: ([NULLP, S(c), S(c), NULLP, Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
    go("ZyanVectorInitEx", "allocator", lambda c: ([Ptr(c.struct("ZyanVector", "v")), S(c), S(c), NULLP, NULLP, B(c, "g"), B(c, "s")], []))
    go("ZyanVectorInitCustomBuffer", "vector", lambda c: ([NULLP, S(c), buf(c), S(c), NULLP], []))
    go("ZyanVectorInitCustomBuffer", "buffer", lambda c: ([Ptr(c.struct("ZyanVector", "v")), S(c), NULLP, S(c), NULLP], []))
    go("ZyanVectorDuplicateEx", "source", lambda c: ([Ptr(c.struct("ZyanVector", "v")), NULLP, S(c), Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
    go("ZyanVectorDuplicateCustomBuffer", "source", lambda c: ([Ptr(c.struct("ZyanVector", "v")), NULLP, buf(c), S(c)], []))
    # zero count
    for fn in ("ZyanVectorInsertRange", "ZyanVectorDeleteRange"):
        c = Case(w, fn, "zero count", mem)
        v = vector(c)
        c.run(*([v.ptr, S(c)] + ([buf(c)] if "Insert" in fn else []) + [ZERO]))
        for ex in c.exits:
            c.require(("V07",), "an empty range is rejected with INVALID_ARGUMENT", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            unchanged(c, ex, v, ("V07",), content=False)


# ---------------------------------------------------------------------------------------- searching
def find(w, fn, isex, mem):
    c = Case(w, fn, "any", mem)
    v = vector(c, "vector", True)
    key = elements(c, ONE, v.es, "element")
    out = c.out("found")

    def eqm(I, st, inst, a):
        st = st.fork()
        p, q = a
        good = isinstance(p, Ptr) and p.r is v.data and isinstance(q, Ptr) and q.r is key and q.o.const() == 0
        I.site("cmpargs", inst, "the comparison is given an element of the vector and the key")
        if not good:
            I.issue("cmpargs", "comparison called with %r, %r" % (p, q), st, inst)
            r = I.fresh("eq", 0, 1, imprecise=True)
        else:
            I.addr(st, p, v.es, inst, False, "element passed to the comparison")
            r = V(term("eqres", (v.data, p.o), 0, 255))
        I.emit(st, "cb", "eq", a, r, inst)
        return [(st, r)]
    cmp = c.fnptr("comparison", eqm)
    if isex:
        idx, n = c.sym("index"), c.sym("count")
        c.run(v.ptr, Ptr(key), Ptr(out), Ptr(cmp), idx, n)
    else:
        idx, n = ZERO, v.size
        c.run(v.ptr, Ptr(key), Ptr(out), Ptr(cmp))
    for ex in c.exits:
        unchanged(c, ex, v, ("V06",))
        st = ex.st
        if c.isstatus(ex, "OUT_OF_RANGE"):
            t = st.assume(v.size - idx - n)
            c.require(("V06", "V07"), "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
            continue
        c.prove(("V06", "V07"), "a range beyond the vector is rejected", ex, v.size - idx - n)
        found = c.outval(ex, out)
        matches = flat_events(st.events(), lambda e: e.kind == "cb" and e.name == "eq")
        if c.isstatus(ex, "TRUE"):
            ok = isinstance(found, P)
            c.require(("V06",), "the found position is reported", ex, ok, repr(found))
            if not ok:
                continue
            c.prove(("V06",), "the found position is in the searched range (low)", ex, found - idx)
            c.prove(("V06",), "the found position is in the searched range (high)", ex, idx + n - 1 - found)
            res = V(term("eqres", (v.data, found * v.es), 0, 255))
            res = canon_res(st, matches, found * v.es) or res
            c.prove(("V06",), "the reported element matches", ex, res - 1)
            nomatch(c, ex, v, idx, found, matches)
        elif c.isstatus(ex, "FALSE"):
            c.prove_eq(("V06",), "an unsuccessful search reports -1", ex, found, K(U64))
            nomatch(c, ex, v, idx, idx + n, matches)
        else:
            c.require(("V06",), "returns TRUE, FALSE or OUT_OF_RANGE", ex, False, repr(ex.ret))


def canon_res(st, matches, off):
    for e, ctx in matches:
        if not ctx and isinstance(e.args[0], Ptr) and st.entails_eq(e.args[0].o - off):
            return e.ret
    return None


def nomatch(c, ex, v, lo, hi, matches, props=("V06",), what="no earlier element matches"):
    """every element of [lo,hi) was compared and did not match"""
    st = ex.st
    p = c.sym("q")
    t = st.assume(p - lo)
    t = t and t.assume(hi - 1 - p)
    if t is None:
        return c.ob(props, what, "ok", "empty range")
    # straight-line comparisons
    for e, ctx in matches:
        if not ctx and isinstance(e.args[0], Ptr) and t.entails_eq(e.args[0].o - p * v.es):
            return c.prove_eq(props, what, Exit(t, ex.ret), e.ret, ZERO)
    for e, ctx in matches:
        if len(ctx) != 1:
            continue
        le, path = ctx[0]
        off = e.args[0].o
        j = c.I.loop_index(t, p * v.es, off, le.j, 1, v.es)
        if j is None:
            continue
        q, d = j
        # iteration q covers p
        r1 = c.decide(t, q)
        r2 = c.decide(t, le.count - 1 - q)
        if r1[0] != "ok" or r2[0] != "ok":
            r = r1 if r1[0] != "ok" else r2
            return c.ob(props, what, r[0], "element not compared: " + r[1])
        allok = True
        for pth in le.paths:
            evs = [x for x in pth.events if isinstance(x, Ev) and x.name == "eq"]
            mp = {le.j.id: q}
            u = t
            for cc in pth.conds:
                u = u and u.assume(subst(cc, mp))
            if u is None:
                continue
            if not evs:
                return c.require(props, what, Exit(u, ex.ret), False, "an element is skipped")
            rr = subst(evs[0].ret, mp)
            x = c.decide_eq(u, rr)
            if x[0] != "ok":
                return c.ob(props, what, x[0], "a matching element is passed over: " + x[1] + c.pathinfo(ex))
        return c.ob(props, what, "ok")
    if not matches:
        return c.require(props, what, Exit(t, ex.ret), False, "no comparison happened on this path")
    return c.ob(props, what, "undecided", "comparison loop not recognised")


def binsearch(w, fn, isex, mem):
    c = Case(w, fn, "any", mem)
    v = vector(c, "vector", True)
    key = elements(c, ONE, v.es, "element")
    out = c.out("found")

    BIG, NEG = (1 << 31) - 1, 1 << 31
    es = v.es

    def res(off):
        return V(term("cmpres", (v.data, off), 0, (1 << 32) - 1))

    def ordered(st, lo, hi):
        """the comparison is monotone over the (sorted) range: sign(lo) <= sign(hi)"""
        for g, keep in ((lambda t: t.assume(lo - NEG), None), (lambda t: t.assume_eq(lo), "ge"), (lambda t: t.assume(lo - 1), "gt")):
            t = g(st)
            if t is not None and keep:
                t = t.assume(K(BIG) - lo)
            if t is not None and keep:
                t = t.assume(K(BIG) - hi)
                t = t and (t.assume(hi - 1) if keep == "gt" else t)
            if t is not None:
                yield t

    def m(I, st, inst, a):
        p, q = a
        good = isinstance(p, Ptr) and p.r is v.data and isinstance(q, Ptr) and q.r is key and q.o.const() == 0
        I.site("cmpargs", inst, "the comparison is given an element of the vector and the key")
        if not good:
            I.issue("cmpargs", "comparison called with %r, %r" % (p, q), st, inst)
            r = I.fresh("cmp", 0, (1 << 32) - 1, imprecise=True)
            return [(st, r)]
        I.addr(st, p, es, inst, False, "element passed to the comparison")
        I.site("cmprange", inst, "only elements of the searched range are compared")
        for goal in (p.o - idx * es, (idx + n) * es - p.o - es):
            if not st.entails(goal):
                I.issue("cmprange", "an element outside the searched range is compared", st, inst, goal)
                st = st.assume(goal)
                if st is None:
                    return []
        r = res(p.o)
        outs = []
        for g in (lambda t: t.assume(r - NEG), lambda t: t.assume_eq(r), lambda t: (lambda u: u and u.assume(K(BIG) - r))(t.assume(r - 1))):
            t = g(st)
            if t is not None:
                outs.append(t)
        # monotonicity against every other result the state knows about
        others = set()
        for cc in st.cons:
            for at in cc.atoms():
                A = ATOMS[at]
                if A.kind == "cmpres" and V(A) != r:
                    others.add(at)
        for at in sorted(others):
            A = ATOMS[at]
            o = A.args[1]
            nxt = []
            for t in outs:
                if t.entails(p.o - o):
                    nxt += list(ordered(t, V(A), r))
                elif t.entails(o - p.o):
                    nxt += list(ordered(t, r, V(A)))
                else:
                    nxt.append(t)
            outs = nxt
        fin = []
        for t in outs:
            t = t.fork()
            I.emit(t, "cb", "cmp", a, r, inst)
            fin.append((t, r))
        return fin
    cmp = c.fnptr("comparison", m)
    idx, n = (c.sym("index"), c.sym("count")) if isex else (ZERO, v.size)
    # ghost results just outside the searched range: everything before is smaller, everything behind is larger
    lowg, highg = res((idx - 1) * es), res((idx + n) * es)
    c.assume(lowg - NEG)
    c.assume(highg - 1)
    c.assume(K(BIG) - highg)
    T, F = c.w.ST["TRUE"], c.w.ST["FALSE"]

    def cands(q):
        out = []
        for d in (-1, 0, 1):
            g = res((q + d) * es)
            out += [g - NEG, K(BIG) - g, -g, g - 1]
        return out

    def pair_cands(q, s):
        out = []
        for d in (-1, 0, 1):
            g = res((q + d) * es)
            # s is a status: TRUE forces an equal element at q+d, FALSE excludes one
            D = abs(T - F)
            isF = (K(T) - s) if T > F else (s - T)       # 0 for TRUE, D for FALSE
            out.append(isF * NEG - g * D)                # TRUE  => g <= 0
            out.append(g * D - isF)                      # FALSE => g >= 1
        return out
    c.I.extra_cands = cands
    c.I.extra_pair_cands = pair_cands
    c.run(*([v.ptr, Ptr(key), Ptr(out), Ptr(cmp)] + ([idx, n] if isex else [])))
    for ex in c.exits:
        unchanged(c, ex, v, ("V06",))
        st = ex.st
        if c.isstatus(ex, "OUT_OF_RANGE"):
            t = st.assume(v.size - idx - n)
            c.require(("V06", "V07"), "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
            continue
        c.prove(("V06", "V07"), "a range beyond the vector is rejected", ex, v.size - idx - n)
        found = c.outval(ex, out)
        if not isinstance(found, P) or not isinstance(ex.ret, P):
            c.require(("V06",), "a position and a status are reported", ex, False, repr((found, ex.ret)))
            continue
        c.prove(("V06",), "the reported position is inside the range or its end (low)", ex, found - idx)
        c.prove(("V06",), "the reported position is inside the range or its end (high)", ex, idx + n - found)
        t = st.assume(-n)
        if t is not None:
            c.prove_eq(("V06",), "an empty range contains nothing", Exit(t, ex.ret), ex.ret, K(F))
        t = st.assume(n - 1)
        if t is None:
            continue

        def at(u, off):
            """the comparison result at an element offset, as far as this path knows it"""
            g = res(off)
            ids = set(a for cc in u.cons for a in cc.atoms())
            if g.single().id in ids:
                return g
            for a in sorted(ids):
                A = ATOMS[a]
                if A.kind == "cmpres" and u.entails_eq(A.args[1] - off):
                    return V(A)
            return g
        e2 = Exit(t, ex.ret)
        below, here = at(t, (found - 1) * es), at(t, found * es)
        c.prove(("V06",), "every element before the reported position is smaller than the key", e2, below - NEG)
        c.prove(("V06",), "the element at the reported position is not smaller than the key", e2, K(BIG) - here)
        d = T - F
        # status TRUE <=> result 0
        for u, eq in ((t.assume_eq(here), True), (t.assume(here - 1), False)):
            if u is not None:
                c.prove_eq(("V06",), "an element equal to the key is found" if eq else "nothing is found if no element equals the key",
                           Exit(u, ex.ret), ex.ret, K(T if eq else F))


SERVES = ["V0[1-7]", "M01"]


def tasks(prop=None):
    mem = ("V01",)
    T = []
    for dyn in (True, False):
        T += [(insert_range, "ZyanVectorInsertRange", dyn, False, mem), (insert_range, "ZyanVectorInsert", dyn, True, mem),
              (push_back, dyn, mem), (emplace, "ZyanVectorEmplaceEx", dyn, True, mem), (emplace, "ZyanVectorEmplace", dyn, False, mem),
              (delete_range, "ZyanVectorDeleteRange", dyn, False, mem), (delete_range, "ZyanVectorDelete", dyn, True, mem),
              (pop_back, dyn, mem), (resize, "ZyanVectorResize", dyn, "plain", mem), (resize, "ZyanVectorResizeEx", dyn, "init", mem),
              (resize, "ZyanVectorResizeEx", dyn, "noinit", mem), (resize, "ZyanVectorClear", dyn, "clear", mem),
              (reserve, dyn, mem), (shrink, dyn, mem), (set_, dyn, mem), (swap, dyn, mem), (destroy, dyn, mem)]
    T += [(getters, mem), (init, mem), (duplicate, mem), (nulls, mem), (find, "ZyanVectorFindEx", True, mem), (find, "ZyanVectorFind", False, mem),
          (binsearch, "ZyanVectorBinarySearchEx", True, mem), (binsearch, "ZyanVectorBinarySearch", False, mem)]
    return T
