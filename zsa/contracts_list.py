"""Contracts of the linked list component.

The nodes of the list under analysis live in one abstract region: node i at offset i * VS (VS larger than any object).
The code compares node addresses only for identity, so any placement of the nodes is represented by this one; the two
positions next to the ends denote NULL where that is convenient (lists that only lose nodes)."""
from .world import *
from .interp import W as Wr, ATOMS
from .contracts_vector import MAXB, flat_events, passing

MEM = ("L01",)
LINK, DATA, FAIL = ("L01",), ("L02",), ("L03",)
VS = 1 << 60
HDR = 16


class Ls:
    pass


def decomp(o):
    """offset = VS * index + displacement"""
    i, d = {}, {}
    for m, co in o.t.items():
        q = (co + VS // 2) // VS
        if q:
            i[m] = q
        if co - q * VS:
            d[m] = co - q * VS
    return P(i), P(d)


def freed_entries(I, st, r):
    """[(state under which the entry exists, offset)] of the nodes given back so far"""
    out = []
    log = st.logs.get(r.id)
    while log is not None:
        log, w = log
        if w.kind == "freed":
            out.append((st, w.off))
        elif w.kind == "loop":
            le = w.x
            for p in le.paths:
                for e in p.writes.get(r.id, ()):
                    if e.kind != "freed":
                        continue
                    j = atom("jf%d" % I.nfresh, 0, U64)
                    I.nfresh += 1
                    t = st.assume(le.count - 1 - V(j))
                    mp = {le.j.id: V(j)}
                    for cc in p.conds:
                        t = t and t.assume(subst(cc, mp))
                    if t is not None:
                        out.append((t, subst(e.off, mp)))
        elif w.kind == "havoc":
            out.append((st, None))
    return out


def dead(I, st, r, i, inst, what, report=True):
    """is node i possibly given back already?"""
    for t, off in freed_entries(I, st, r):
        if off is None:
            if not I.quiet and report:
                I.issue("uaf", "%s: nodes given back in a loop are not known" % what, st, inst, imprecise=True)
            return True
        d = i * VS - off
        if t.entails(d - 1) or t.entails(-d - 1):
            continue
        u = t.assume_eq(d)
        if u is not None:
            if report:
                I.issue("uaf", "%s of a node that was given back" % what, u, inst)
            return True
    return False


def lst(c, name="list", dyn=True, n=None, u=None, shrinking=False, dtor=None):
    """a valid list of n nodes (fixed buffer: u more nodes wait for reuse)"""
    L = Ls()
    w = c.w
    assert w.lay.size("ZyanListNode") == HDR and w.lay.off("ZyanListNode", "next") == 8
    L.c, L.name, L.dyn = c, name, dyn
    L.reg = c.struct("ZyanList", name)
    L.S = c.sym(name + ".node_size", HDR + 1, MAXB)
    L.es = L.S - HDR
    L.n = c.sym(name + ".size", 0, MAXB) if n is None else n
    L.delta = c.sym(name + ".byte", 0, MAXB)
    c.assume(L.es - 1 - L.delta)
    N = L.N = c.region(name + ".nodes", None, "array", kind="node")
    G = L.G = c.region(name + ".ghost", K(24), "cells")
    c.st.setcell(G, 16, 8, ZERO)     # a release failed
    c.st.setcell(G, 0, 8, ZERO)      # nodes allocated
    c.st.setcell(G, 8, 8, ZERO)      # nodes given back
    if shrinking:
        N.nullat = (L.n * VS, K(-VS))

    def ghost(st, o):
        return st.getcell(G, o)[1]
    L.ghost = ghost

    def access(I, st, o, ln, inst, what):
        i, d = decomp(o)
        for goal, msg in ((i, "a node before the first"), (L.n + (ghost(st, 0) if dyn else ZERO) - 1 - i, "a node after the last"),
                          (d, "below a node"), (L.S - d - ln, "beyond a node")):
            if not st.entails(goal):
                I.issue("oob", "%s: %s (%s)" % (what, msg, name), st, inst, goal)
                st = st.assume(goal)
                if st is None:
                    return []
        if dead(I, st, N, i, inst, what):
            return []
        return [st]
    N.access = access
    N.stride = VS

    def policy(I, st, r, o, size, isptr):
        i, d = decomp(o)
        out = []
        a, b = st.split(L.n - 1 - i)
        if b:
            out.append((b, UNDEF))          # new node
        if a:
            k = d.const()
            if k in (0, 8) and size == 8:
                s = -1 if k == 0 else 1
                if shrinking:
                    out.append((a, Ptr(N, (i + s) * VS)))
                else:
                    e, m = a.split_eq(i if k == 0 else i - L.n + 1)
                    if e:
                        out.append((e, NULLP))
                    if m:
                        out.append((m, Ptr(N, (i + s) * VS)))
            elif k is not None and k < HDR:
                return None
            else:
                out.append((a, V(I.init_atom(a, r, o, size))))
        return out
    N.policy = policy
    L.head = Ptr(N, ZERO)
    L.tail = Ptr(N, (L.n - 1) * VS)
    if not shrinking and L.n.const() == 0:
        L.head = L.tail = NULLP
    L.dtor = NULLR if dtor is False else c.fnptr("destructor", dtor_model(c, L), maybe_null=dtor is None)
    if dyn:
        L.alloc = node_allocator(c, L)
        L.cap, L.u = ZERO, ZERO
        L.buffer = L.unused = NULLP
    else:
        L.alloc = None
        L.u = c.sym(name + ".unused", 0, MAXB) if u is None else u
        L.cap = c.sym(name + ".capacity", 1, MAXB)
        c.assume(L.cap - (L.n + L.u) * L.S)
        B = L.B = c.region(name + ".buffer", L.cap, "array", kind="buffer")
        B.init_content = "uninit"

        def baccess(I, st, o, ln, inst, what):
            for goal, msg in ((o - (L.n + L.u) * L.S, "nodes in use"), (L.cap - o - ln, "memory behind the buffer")):
                if not st.entails(goal):
                    I.issue("oob", "%s touches %s (%s)" % (what, msg, name), st, inst, goal)
                    st = st.assume(goal)
                    if st is None:
                        return []
            return [st]
        B.access = baccess
        L.buffer = Ptr(B)
        U = L.U = c.region(name + ".unused", None, "array", kind="node")
        U.nullat = (L.u * VS,)

        def uaccess(I, st, o, ln, inst, what):
            i, d = decomp(o)
            for goal, msg in ((i, "before the unused nodes"), (L.u - 1 - i, "after the unused nodes"), (d, "below a node"), (L.S - d - ln, "beyond a node")):
                if not st.entails(goal):
                    I.issue("oob", "%s: %s (%s)" % (what, msg, name), st, inst, goal)
                    st = st.assume(goal)
                    if st is None:
                        return []
            return [st]
        U.access = uaccess
        U.stride = VS

        def upolicy(I, st, r, o, size, isptr):
            i, d = decomp(o)
            return Ptr(U, (i + 1) * VS) if d.const() == 8 and size == 8 else None
        U.policy = upolicy
        U.init_content = "atom"
        L.unused = Ptr(U)
    L.f = {"allocator": Ptr(L.alloc) if dyn else NULLP, "size": L.n, "element_size": L.es, "destructor": Ptr(L.dtor), "head": L.head, "tail": L.tail,
           "buffer": L.buffer, "capacity": L.cap, "first_unused": L.unused}
    for k, x in L.f.items():
        c.set(L.reg, "ZyanList", k, x)
    L.ptr = Ptr(L.reg)
    # an error code stays in the result once a release has failed
    c.I.extra_cands = lambda q: [ONE - q, q - (1 << 31), K((1 << 31) - 1) - q]
    c.I.extra_pair_cands = lambda q, x: [q - x * (1 << 31), x * (1 << 31) + (1 << 31) - 1 - q]
    return L


def dtor_model(c, L):
    def destructor(I, st, inst, a):
        p = a[0]
        out = []
        if not isinstance(p, Ptr):
            st = st.fork()
            I.emit(st, "cb", "destructor", a, None, inst)
            return [(st, None)]
        for t, r, o in I.addr(st, p, L.es, inst, False, "element passed to the destructor"):
            for u, v in I.read(t, r, o + L.delta, 1, False):
                u = u.fork()
                I.emit(u, "cb", "destructor", a, None, inst, x=v)
                out.append((u, None))
        return out
    return destructor


def node_allocator(c, L):
    r = c.struct("ZyanAllocator", L.name + ".allocator")
    SUCCESS = K(c.w.ST["SUCCESS"])

    def allocate(I, st, inst, a):
        es, n = I.num(st, a[2], inst), I.num(st, a[3], inst)
        I.site("alloccontract", inst, "allocation asks for exactly one node")
        d = es * n - L.S
        if not st.entails_eq(d):
            I.issue("alloccontract", "allocation of %r*%r bytes for a node of %r" % (es, n, L.S), st, inst, d if not st.entails(d) else -d)
        f = st.fork()
        err = V(term("allocerr", ("allocate",) + I.callid(), 1 << 31, (1 << 32) - 1))
        I.emit(f, "alloc", "allocate", [es, n], err, inst)
        out = [(f, err)]
        ok = st.fork()
        g = L.ghost(ok, 0)
        p = Ptr(L.N, (L.n + g) * VS)
        ok.setcell(L.G, 0, 8, g + 1)
        I.emit(ok, "alloc", "allocate", [es, n], SUCCESS, inst, x=p)
        for t in I.store(ok, a[1], p, 8, inst):
            out.append((t, passing(I, "allocate")))
        return out

    def deallocate(I, st, inst, a):
        p, es, n = a[1], I.num(st, a[2], inst), I.num(st, a[3], inst)
        I.site("alloccontract", inst, "deallocation is given a live node of this list with its true size")
        if not isinstance(p, Ptr) or p.r is not L.N:
            I.issue("alloccontract", "deallocation of %r, which no allocator call returned" % (p,), st, inst, imprecise=isinstance(p, Ptr) and p.r.imprecise)
            return []
        i, d = decomp(p.o)
        d2 = es * n - L.S
        for x, msg in ((d, "an interior pointer of a node"), (d2, "%r*%r bytes for a node of %r" % (es, n, L.S))):
            if not st.entails_eq(x):
                I.issue("alloccontract", "deallocation of %s" % msg, st, inst, x if not st.entails(x) else -x)
        for t, isn in I.isnull(st, p):
            if isn:
                I.issue("alloccontract", "deallocation of NULL", t, inst)
                continue
            for goal in (i, L.n + L.ghost(t, 0) - 1 - i):
                if not t.entails(goal):
                    I.issue("alloccontract", "deallocation of something that is not a node", t, inst, goal)
            dead(I, t, L.N, i, inst, "release")
            st = t
            break
        else:
            return []
        out = []
        for ret in (SUCCESS, V(term("allocerr", ("deallocate",) + I.callid(), 1 << 31, (1 << 32) - 1))):
            ok = st.fork()
            I.emit(ok, "alloc", "deallocate", [p, es, n], ret, inst)
            ok.logs[L.N.id] = (ok.logs.get(L.N.id), Wr("freed", p.o, K(VS), ZERO))
            ok.setcell(L.G, 8, 8, L.ghost(ok, 8) + 1)
            if ret is not SUCCESS:
                ok.setcell(L.G, 16, 8, ONE)
            out.append((ok, ret if ret is not SUCCESS else passing(I, "deallocate")))
        return out
    c.set(r, "ZyanAllocator", "allocate", Ptr(c.fnptr("allocate", allocate)))
    c.set(r, "ZyanAllocator", "reallocate", Ptr(c.fnptr("reallocate", lambda I, st, inst, a: [(st, K(1 << 31))])))
    c.set(r, "ZyanAllocator", "deallocate", Ptr(c.fnptr("deallocate", deallocate)))
    return r


def cell(c, ex, L, f):
    return c.cell(ex, L.reg, "ZyanList", f)


def seg(r, first, count, stride=VS):
    return (r, first, stride, count)


def node(s, p):
    return Ptr(s[0], s[1] + p * s[2])


def chain(c, ex, props, what, segs, head, tail=None, double=True, L=None):
    """the nodes of segs, in this order, form the chain that starts at head"""
    ret = getattr(ex, "ret", None)
    states = [(ex.st, [])]
    for s in segs:
        nxt = []
        for st, act in states:
            a, b = st.split(s[3] - 1)
            if a:
                nxt.append((a, act + [s]))
            if b:
                nxt.append((b, act))
        states = nxt

    def link(st, p, off, want, msg):
        for u, v in c.I.read(st, p.r, p.o + off, 8, True):
            c.prove_eq(props, "%s: %s" % (what, msg), Exit(u, ret), v, want)
    for st, act in states:
        e = Exit(st, ret)
        if not act:
            c.prove_eq(props, "%s: an empty chain has no first node" % what, e, head, NULLP)
            if double:
                c.prove_eq(props, "%s: an empty chain has no last node" % what, e, tail, NULLP)
            continue
        c.prove_eq(props, "%s: starts with the expected node" % what, e, head, node(act[0], ZERO))
        if double:
            c.prove_eq(props, "%s: ends with the expected node" % what, e, tail, node(act[-1], act[-1][3] - 1))
        for k, s in enumerate(act):
            link(st, node(s, s[3] - 1), 8, node(act[k + 1], ZERO) if k + 1 < len(act) else NULLP, "forward links follow the order and end with NULL")
            if double:
                link(st, node(s, ZERO), 0, node(act[k - 1], act[k - 1][3] - 1) if k else NULLP, "backward links follow the order and start with NULL")
            if s[3].const() != 1:
                p = c.sym("p")
                t = st.assume(s[3] - 2 - p)
                if t is not None:
                    link(t, node(s, p), 8, node(s, p + 1), "forward links follow the order and end with NULL")
                    if double:
                        link(t, node(s, p + 1), 0, node(s, p), "backward links follow the order and start with NULL")
            if L is not None and L.dyn and s[0] is L.N:
                p = c.sym("p")
                t = st.assume(s[3] - 1 - p)
                if t is not None:
                    i, d = decomp(node(s, p).o)
                    for u, off in freed_entries(c.I, t, L.N):
                        if off is None:
                            c.ob(props, "%s: every node is alive" % what, "undecided", "released nodes are not known")
                            continue
                        dd = i * VS - off
                        if u.entails(dd - 1) or u.entails(-dd - 1):
                            continue
                        x = u.assume_eq(dd)
                        c.require(props, "%s: every node is alive" % what, Exit(x, ret) if x else ex, x is None, "node was given back")


class Probe:
    """evaluates obligations without recording them"""

    def __init__(s, c):
        s.c = c

    def __enter__(s):
        s.n = len(s.c.w.obs)
        s.u = s.c.w.unroll
        s.c.w.unroll = 0
        return s

    def __exit__(s, *a):
        s.bad = [o for o in s.c.w.obs[s.n:] if o.status != "ok"]
        del s.c.w.obs[s.n:]
        s.c.w.unroll = s.u


def anychain(c, ex, props, what, options, head, **kw):
    """one of the node orders applies"""
    for o in options:
        with Probe(c) as p:
            chain(c, ex, props, what, o, head, **kw)
        if not p.bad:
            break
    else:
        o = options[0]
    chain(c, ex, props, what, o, head, **kw)


def total(segs):
    t = ZERO
    for s in segs:
        t = t + s[3]
    return t


def old(L, lo=ZERO, hi=None):
    return seg(L.N, lo * VS, (L.n if hi is None else hi) - lo)


def spare(L, lo=ZERO):
    return seg(L.U, lo * VS, L.u - lo)


def valid(c, ex, L, segs, unused=None, props=LINK, what="list"):
    """the list consists of exactly the nodes in segs; unused: acceptable orders of the nodes waiting for reuse"""
    for f in ("allocator", "element_size", "destructor", "buffer", "capacity"):
        c.prove_eq(props, "%s keeps its %s" % (what, f), ex, cell(c, ex, L, f), L.f[f])
    c.prove_eq(props, "%s: the size counts the linked nodes" % what, ex, cell(c, ex, L, "size"), total(segs))
    chain(c, ex, props, what, segs, cell(c, ex, L, "head"), cell(c, ex, L, "tail"), L=L)
    if L.dyn:
        c.prove_eq(props, "%s: every allocated node is linked or given back" % what, ex, total(segs), L.n + L.ghost(ex.st, 0) - L.ghost(ex.st, 8))
        c.prove_eq(props, "%s: no unused nodes" % what, ex, cell(c, ex, L, "first_unused"), NULLP)
    else:
        unused = unused or [[spare(L)]]
        anychain(c, ex, props, what + ", unused nodes", unused, cell(c, ex, L, "first_unused"), double=False)
        for s in list(segs) + list(unused[0]):
            if s[0] is L.B:
                # later allocations continue behind size + unused nodes
                c.prove(props, "%s: nodes stay inside the used part of the buffer" % what, ex, (total(segs) + total(unused[0])) * L.S - s[1] - s[3] * L.S)
    for s in segs:
        if s[0] is L.N and s[1].t != (L.n * VS).t:
            content(c, ex, L, s)


def content(c, ex, L, s, props=DATA):
    p = c.sym("p")
    t = ex.st.assume(s[3] - 1 - p)
    if t is None:
        return
    o = node(s, p).o + HDR + L.delta
    for u, v in c.I.read(t, L.N, o, 1, False):
        c.prove_eq(props, "elements that stay in the list keep their value", Exit(u, ex.ret), v, V(c.I.init_atom(u, L.N, o, 1)))


def nochange(c, ex, L, props=FAIL):
    valid(c, ex, L, [old(L)])


def newnode(c, ex, L, p, used=ONE):
    """segment of one freshly obtained node p; None if it is not one"""
    if not isinstance(p, Ptr):
        c.require(LINK, "the new node is part of the list's memory", ex, False, repr(p))
        return None
    if L.dyn:
        ok = p.r is L.N and ex.st.entails_eq(p.o - L.n * VS)
    else:
        ok = p.r is L.U and p.o.const() == 0 or p.r is L.B
    if not c.require(LINK, "the new node is a fresh one", ex, ok, repr(p)):
        return None
    return seg(p.r, p.o, ONE, VS)


def unused_after(c, ex, L, new):
    if L.dyn:
        return None
    if new[0] is L.U:
        return [[spare(L, ONE)]]
    t = ex.st.assume(L.u - 1)
    c.require(LINK, "unused nodes are reused before new memory is taken", Exit(t, ex.ret) if t else ex, t is None)
    return [[spare(L)]]


def copied(c, ex, L, new, item, props=DATA):
    for u, v in c.I.read(ex.st, new[0], new[1] + HDR + L.delta, 1, False):
        for x, want in c.I.read(u, item, L.delta, 1, False):
            c.prove_eq(props, "the new element is a copy of the item", Exit(x, ex.ret), v, want)


def allocerr(ex, name="allocate"):
    for e in ex.st.events():
        if isinstance(e, Ev) and e.kind == "alloc" and e.name == name and not (isinstance(e.ret, P) and e.ret.const() is not None):
            return e
    return None


def nospace(c, ex, L, extra=ZERO):
    """a failed insertion is explained by the allocator or a full buffer"""
    if L.dyn:
        e = allocerr(ex)
        if c.require(FAIL, "insertion fails only through the allocator", ex, e is not None, repr(ex.ret)):
            c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, e.ret)
    else:
        if c.require(FAIL, "a full buffer is reported as INSUFFICIENT_BUFFER_SIZE", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret)):
            c.prove(FAIL, "the buffer is reported full only if there is no unused node", ex, -L.u + extra)
            c.prove(FAIL, "the buffer is reported full only if no node fits", ex, (L.n + L.u + extra + 1) * L.S - L.cap - 1) if extra.const() == 0 else None


def nonempty(c, L):
    c.assume(L.n - 1)


def mklist(c, dyn, empty, **kw):
    if empty:
        return lst(c, dyn=dyn, n=ZERO, **kw)
    L = lst(c, dyn=dyn, **kw)
    nonempty(c, L)
    return L


def label(dyn, empty=None, dtor=None):
    return ("dynamic" if dyn else "fixed buffer") + ("" if empty is None else ", empty" if empty else ", with elements") \
        + ("" if dtor is None else ", destructor" if dtor else ", no destructor")


def push(w, fn, dyn, empty, mem):
    c = Case(w, fn, label(dyn, empty), mem)
    L = mklist(c, dyn, empty)
    front = fn.endswith("Front")
    emplace = "Emplace" in fn
    if emplace:
        out = c.out("item")

        def model(I, st, inst, a):
            res = []
            for t, r, o in I.addr(st, a[0], L.es, inst, True, "element passed to the constructor"):
                t = t.fork()
                I.range_write(t, "opaque", r, o, L.es, ZERO, ("constructed",))
                for ret in (K(c.w.ST["SUCCESS"]), V(term("ctorerr", I.callid(), 1 << 31, (1 << 32) - 1))):
                    f = t.fork()
                    I.emit(f, "cb", "constructor", a, ret, inst)
                    res.append((f, ret if ret.const() is None else passing(I, "constructor")))
            return res
        ctor = c.fnptr("constructor", model, maybe_null=True)
        c.run(L.ptr, Ptr(out), Ptr(ctor))
    else:
        item = c.region("item", L.es, "array")
        c.run(L.ptr, Ptr(item))
    for ex in c.exits:
        st = ex.st
        ctors = [e for e in st.events() if isinstance(e, Ev) and e.kind == "cb" and e.name == "constructor"]
        c.require(DATA, "no destructor runs when an element is added", ex, not [e for e in st.events() if isinstance(e, Ev) and e.name == "destructor"])
        if c.success(ex):
            for e in ctors:
                c.require(FAIL, "a failing constructor makes the call fail", ex, e.ret.const() is not None, repr(e.ret))
            p = cell(c, ex, L, "head" if front else "tail")
            new = newnode(c, ex, L, p)
            if new is None:
                continue
            valid(c, ex, L, [new, old(L)] if front else [old(L), new], unused_after(c, ex, L, new))
            if emplace:
                c.prove_eq(DATA, "the caller receives the address of the new element", ex, c.outval(ex, out), Ptr(new[0], new[1] + HDR))
                if st.null.get(ctor.id) is not True:
                    c.require(DATA, "the constructor runs exactly once", ex, len(ctors) == 1 and st.null.get(ctor.id) is False, repr(ctors))
                for e in ctors:
                    c.prove_eq(DATA, "the constructor is given the new element", ex, e.args[0], Ptr(new[0], new[1] + HDR))
            else:
                copied(c, ex, L, new, item)
            if not L.dyn:
                pass
        else:
            failed = [e for e in ctors if e.ret.const() is None]
            if failed:
                de = allocerr(ex, "deallocate")
                if de is None:
                    c.prove_eq(FAIL, "the constructor's error is returned", ex, ex.ret, failed[0].ret)
                fu = cell(c, ex, L, "first_unused")
                un = None
                if not L.dyn and isinstance(fu, Ptr) and fu.r is L.B:
                    un = [[seg(L.B, fu.o, ONE), spare(L)]]
                valid(c, ex, L, [old(L)], un, FAIL + LINK, "list after a failed call")
            else:
                nospace(c, ex, L)
                valid(c, ex, L, [old(L)], None, FAIL + LINK, "list after a failed call")


def intervals(evs, name):
    """[(first offset, step, count)] of the calls of one callback in order; None: too complex"""
    out = []
    for e in evs:
        if isinstance(e, LoopEv):
            per = [[x for x in p.events if isinstance(x, LoopEv) or x.name == name] for p in e.paths]
            if any(isinstance(x, LoopEv) for p in per for x in p):
                if any(intervals([x for x in p if isinstance(x, LoopEv)], name) != [] for p in per):
                    return None
                per = [[x for x in p if not isinstance(x, LoopEv)] for p in per]
            if not any(per):
                continue
            a = [p[0].args for p in per if p]
            if any(len(p) != 1 for p in per) or any(x[0] != a[0][0] for x in a) or not isinstance(a[0][0], Ptr):
                return None
            o = a[0][0].o
            first = subst(o, {e.j.id: ZERO})
            out.append((a[0][0].r, first, subst(o, {e.j.id: V(e.j) + 1}) - o, e.count, [p[0] for p in per], e))
        elif e.name == name:
            p = e.args[0]
            if not isinstance(p, Ptr):
                return None
            out.append((p.r, p.o, None, ONE, [e], None))
    return out


def destroyed(c, ex, L, lo, hi, props=DATA):
    """the destructor (if any) ran exactly once on each of the nodes lo..hi-1, while they still held their value"""
    st, ret = ex.st, ex.ret
    evs = st.events()
    isn = True if L.dtor is NULLR else st.null.get(L.dtor.id) if L.dtor.maybe_null else False
    iv = intervals(evs, "destructor")
    what = "the destructor runs exactly once for every removed element"
    t = st.assume(hi - lo - 1)
    if iv is None:
        c.ob(props, what, "undecided", "calls in a loop with several forms")
        return
    if isn is True:
        c.require(props, "no destructor is called if none is registered", ex, not iv, repr(iv))
        return
    if t is None:
        for x in iv:
            u = st.assume(x[3] - 1)
            c.require(props, "no destructor is called if nothing is removed", Exit(u, ret) if u else ex, u is None, repr(x))
        return
    if isn is None:
        u = t.fork()
        u.null[L.dtor.id] = False
        c.require(props, what, Exit(u, ret), False, "destructor not consulted")
        return
    e = Exit(t, ret)
    if any(x[0] is not L.N for x in iv):
        c.require(props, "the destructor is given an element of the list", e, False, repr(iv))
        return
    down = any(x[2] is not None and x[2].const() is not None and x[2].const() < 0 for x in iv)
    if not down and len(iv) > 1 and all(x[2] is None for x in iv):
        down = not t.entails_eq(iv[0][1] - lo * VS - HDR)
    pos = hi - 1 if down else lo
    cnt = ZERO
    for r, first, step, n, es, le in iv:
        u = t.assume(n - 1)
        if u is not None:
            c.prove_eq(props, what, Exit(u, ret), first, pos * VS + HDR)
            if step is not None and not u.entails(ONE - n):
                c.prove_eq(props, what, Exit(u, ret), step, K(-VS if down else VS))
        pos = pos - n if down else pos + n
        cnt = cnt + n
        for ev in es:
            v = ev.x
            q = u
            if le is not None and q is not None:
                q = q.assume(le.count - 1 - V(le.j))
            if q is not None and isinstance(ev.args[0], Ptr) and isinstance(v, P):
                at = ev.args[0].o + L.delta
                A = c.I.init_atom(q, L.N, at, 1)
                w = v.single()
                same = w is not None and w.kind == "init" and w.args[0] is L.N and q.entails_eq(w.args[1] - at)
                if not same:
                    c.prove_eq(props, "the destructor sees the element's value", Exit(q, ret), v, V(A))
                else:
                    c.ob(props, "the destructor sees the element's value", "ok")
            elif q is not None and not isinstance(v, P):
                c.require(props, "the destructor sees the element's value", Exit(q, ret), False, repr(v))
    c.prove_eq(props, what, e, cnt, hi - lo)


def released(c, ex, L):
    """a removal reports exactly the allocator's errors"""
    failed = L.ghost(ex.st, 16)
    if not isinstance(ex.ret, P):
        c.require(FAIL, "the call has a defined result", ex, False, repr(ex.ret))
        return
    good, bad = ex.st.split(K((1 << 31) - 1) - ex.ret)
    if good:
        c.prove_eq(FAIL, "a failed release is reported", Exit(good, ex.ret), failed, ZERO)
    if bad:
        c.prove_eq(FAIL, "removal fails only through the allocator", Exit(bad, ex.ret), failed, ONE)


def pop(w, fn, dyn, empty, dtor, mem):
    c = Case(w, fn, label(dyn, empty, dtor), mem)
    L = mklist(c, dyn, empty, shrinking=True, dtor=dtor)
    c.run(L.ptr)
    front = fn.endswith("Front")
    for ex in c.exits:
        if empty:
            c.require(FAIL, "removing from an empty list is refused", ex, c.isstatus(ex, "INVALID_OPERATION"), repr(ex.ret))
            valid(c, ex, L, [], None, FAIL)
            continue
        i = ZERO if front else L.n - 1
        destroyed(c, ex, L, i, i + 1)
        valid(c, ex, L, [old(L, ONE)] if front else [old(L, ZERO, L.n - 1)], None if dyn else [[seg(L.N, i * VS, ONE), spare(L)]])
        released(c, ex, L)


def remove(w, fn, dyn, dtor, mem):
    c = Case(w, fn, label(dyn, None, dtor), mem)
    L = mklist(c, dyn, False, shrinking=True, dtor=dtor)
    c.I.peel_first = True
    a = c.sym("first", 0, MAXB)
    c.assume(L.n - 1 - a)
    if fn == "ZyanListRemove":
        b = a
        c.run(L.ptr, Ptr(L.N, a * VS))
    else:
        b = c.sym("last", 0, MAXB)
        c.assume(b - a)
        c.assume(L.n - 1 - b)
        c.run(L.ptr, Ptr(L.N, a * VS), Ptr(L.N, b * VS))
    for ex in c.exits:
        destroyed(c, ex, L, a, b + 1)
        valid(c, ex, L, [old(L, ZERO, a), old(L, b + 1)],
              None if dyn else [[seg(L.N, b * VS, b - a + 1, -VS), spare(L)], [seg(L.N, a * VS, b - a + 1), spare(L)]])
        released(c, ex, L)


def clear(w, fn, dyn, dtor, mem):
    c = Case(w, fn, label(dyn, None, dtor), mem)
    L = lst(c, dyn=dyn, shrinking=True, dtor=dtor)
    c.run(*([L.ptr] + ([ZERO] if "Resize" in fn else []) + ([NULLP] if fn.endswith("Ex") else [])))
    for ex in c.exits:
        destroyed(c, ex, L, ZERO, L.n)
        opts = None if dyn else [[], [seg(L.N, ZERO, L.n), spare(L)], [seg(L.N, (L.n - 1) * VS, L.n, -VS), spare(L)]]
        valid(c, ex, L, [], opts)
        released(c, ex, L)


def destroy(w, dyn, dtor, mem):
    c = Case(w, "ZyanListDestroy", label(dyn, None, dtor), mem)
    L = lst(c, dyn=dyn, shrinking=True, dtor=dtor)
    c.run(L.ptr)
    for ex in c.exits:
        destroyed(c, ex, L, ZERO, L.n)
        if dyn:
            c.prove_eq(LINK, "destroying gives every node back", ex, L.ghost(ex.st, 8), L.n)
        released(c, ex, L)


def shrink(w, fn, dyn, dtor, mem):
    c = Case(w, fn, label(dyn, None, dtor) + ", shrinking", mem)
    L = lst(c, dyn=dyn, shrinking=True, dtor=dtor)
    c.I.peel_first = True
    m = c.sym("size", 1, MAXB)
    c.assume(L.n - m)
    c.run(*([L.ptr, m] + ([NULLP] if fn.endswith("Ex") else [])))
    for ex in c.exits:
        destroyed(c, ex, L, m, L.n)
        valid(c, ex, L, [old(L, ZERO, m)], None if dyn else [[seg(L.N, m * VS, L.n - m), spare(L)], [seg(L.N, (L.n - 1) * VS, L.n - m, -VS), spare(L)]])
        released(c, ex, L)


def grow(w, fn, dyn, empty, mode, given, mem):
    c = Case(w, fn, label(dyn, empty) + ", growing" + {0: "", 1: ", no unused nodes", 2: ", enough unused nodes", 3: ", some unused nodes"}[mode] + (", initial value" if given else ""), mem)
    L = mklist(c, dyn, empty, **({"u": ZERO} if mode == 1 else {}))
    c.I.peel_first = True
    m = c.sym("size", 1, MAXB)
    c.assume(m - L.n - 1)
    if mode == 2:
        c.assume(L.u - (m - L.n))
    if mode == 3:
        c.assume(L.u - 1)
        c.I.loop_cut = L.u
        c.assume(m - L.n - L.u - 1)
    init = None
    if fn.endswith("Ex"):
        init = c.region("initializer", L.es, "array") if given else None
        c.run(L.ptr, m, Ptr(init) if given else NULLP)
    else:
        c.run(L.ptr, m)
    for ex in c.exits:
        st = ex.st
        size = cell(c, ex, L, "size")
        if not isinstance(size, P):
            c.require(LINK, "the size is known", ex, False, repr(size))
            continue
        if c.success(ex):
            c.prove_eq(LINK, "the list has the requested size", ex, size, m)
            size = m
        else:
            nospace(c, ex, L, size - L.n)
        k = size - L.n      # nodes added
        if dyn:
            segs, un = [old(L), seg(L.N, L.n * VS, k)], None
        elif mode == 1:
            segs, un = [old(L), seg(L.B, L.n * L.S, k, L.S)], None
        elif mode == 2:
            segs, un = [old(L), seg(L.U, ZERO, k)], [[spare(L, k)]]
        else:
            a, b = st.split(L.u - k)
            if b is None:
                segs, un = [old(L), seg(L.U, ZERO, k)], [[spare(L, k)]]
            elif a is None:
                segs, un = [old(L), seg(L.U, ZERO, L.u), seg(L.B, (L.n + L.u) * L.S, k - L.u, L.S)], [[]]
            else:
                continue
        valid(c, ex, L, segs, un)
        if init is not None:
            s = segs[1]
            for s in segs[1:]:
                p = c.sym("p")
                t = st.assume(s[3] - 1 - p)
                if t is None:
                    continue
                q = node(s, p)
                for u, v in c.I.read(t, q.r, q.o + HDR + L.delta, 1, False):
                    c.prove_eq(DATA, "new elements take the initial value", Exit(u, ex.ret), v, V(c.I.init_atom(u, init, L.delta, 1)))


def same_size(w, fn, dyn, mem):
    c = Case(w, fn, label(dyn) + ", same size", mem)
    L = lst(c, dyn=dyn, shrinking=True)
    c.run(*([L.ptr, L.n] + ([NULLP] if fn.endswith("Ex") else [])))
    for ex in c.exits:
        c.require(FAIL, "resizing to the current size succeeds", ex, c.success(ex) is True, repr(ex.ret))
        valid(c, ex, L, [old(L)])


def access(w, mem):
    for fn, f in (("ZyanListGetHeadNode", "head"), ("ZyanListGetTailNode", "tail")):
        for dyn in (True, False):
            c = Case(w, fn, label(dyn), mem)
            L = lst(c, dyn=dyn, shrinking=True)
            out = c.out("node")
            c.run(L.ptr, Ptr(out))
            for ex in c.exits:
                c.require(LINK, "access to a valid list succeeds", ex, c.success(ex) is True, repr(ex.ret))
                c.prove_eq(LINK, "the %s node is returned" % f, ex, c.outval(ex, out), L.f[f])
                valid(c, ex, L, [old(L)])
    for fn, s in (("ZyanListGetPrevNode", -1), ("ZyanListGetNextNode", 1)):
        c = Case(w, fn, "any node", mem)
        L = lst(c, shrinking=True)
        i = c.sym("index", 0, MAXB)
        c.assume(L.n - 1 - i)
        out = c.region("node", K(8), "cells")
        c.st.setcell(out, 0, 8, Ptr(L.N, i * VS))
        c.run(Ptr(out))
        for ex in c.exits:
            c.require(LINK, "moving from a valid node succeeds", ex, c.success(ex) is True, repr(ex.ret))
            c.prove_eq(LINK, "moving yields the neighbour (NULL at the end)", ex, c.outval(ex, out), Ptr(L.N, (i + s) * VS))
            valid(c, ex, L, [old(L)])
        c = Case(w, fn, "no node", mem)
        out = c.region("node", K(8), "cells")
        c.st.setcell(out, 0, 8, NULLP)
        c.run(Ptr(out))
        for ex in c.exits:
            c.require(FAIL, "moving from no node is rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
    for fn in ("ZyanListGetNodeData", "ZyanListGetNodeDataMutable", "ZyanListGetNodeDataEx", "ZyanListGetNodeDataMutableEx"):
        c = Case(w, fn, "any node", mem)
        L = lst(c, shrinking=True)
        i = c.sym("index", 0, MAXB)
        c.assume(L.n - 1 - i)
        want = Ptr(L.N, i * VS + HDR)
        if fn.endswith("Ex"):
            out = c.out("value")
            c.run(Ptr(L.N, i * VS), Ptr(out))
            for ex in c.exits:
                c.require(DATA, "access to a valid node succeeds", ex, c.success(ex) is True, repr(ex.ret))
                c.prove_eq(DATA, "the address of the node's element is returned", ex, c.outval(ex, out), want)
        else:
            c.run(Ptr(L.N, i * VS))
            for ex in c.exits:
                c.prove_eq(DATA, "the address of the node's element is returned", ex, ex.ret, want)
    for dyn in (True, False):
        c = Case(w, "ZyanListSetNodeData", label(dyn), mem)
        L = lst(c, dyn=dyn, shrinking=True)
        i = c.sym("index", 0, MAXB)
        c.assume(L.n - 1 - i)
        item = c.region("value", L.es, "array")
        c.run(L.ptr, Ptr(L.N, i * VS), Ptr(item))
        for ex in c.exits:
            c.require(DATA, "setting the value of a valid node succeeds", ex, c.success(ex) is True, repr(ex.ret))
            destroyed(c, ex, L, i, i + 1)
            chain(c, ex, LINK, "list", [old(L)], cell(c, ex, L, "head"), cell(c, ex, L, "tail"), L=L)
            content(c, ex, L, old(L, ZERO, i))
            content(c, ex, L, old(L, i + 1))
            for u, v in c.I.read(ex.st, L.N, i * VS + HDR + L.delta, 1, False):
                c.prove_eq(DATA, "the element takes the given value", Exit(u, ex.ret), v, V(c.I.init_atom(u, item, L.delta, 1)))
    c = Case(w, "ZyanListGetSize", "any", mem)
    L = lst(c, shrinking=True)
    out = c.out("size")
    c.run(L.ptr, Ptr(out))
    for ex in c.exits:
        c.require(LINK, "a valid list has a size", ex, c.success(ex) is True, repr(ex.ret))
        c.prove_eq(LINK, "the number of elements is reported", ex, c.outval(ex, out), L.n)
        valid(c, ex, L, [old(L)])


def init(w, fn, mem):
    c = Case(w, fn, "any", mem)
    reg = c.struct("ZyanList", "list")
    reg.init_content = "undef"
    es = c.sym("element_size")
    d = Ptr(c.fnptr("destructor", None, maybe_null=True))
    f = {"size": ZERO, "element_size": es, "destructor": d, "head": NULLP, "tail": NULLP, "first_unused": NULLP}
    usable = es - 1
    if fn == "ZyanListInitCustomBuffer":
        cap = c.sym("capacity")
        buf = c.region("buffer", cap, "array", maybe_null=True)
        f.update(allocator=NULLP, buffer=Ptr(buf), capacity=cap)
        c.run(Ptr(reg), es, d, Ptr(buf), cap)
    elif fn == "ZyanListInitEx":
        al = c.struct("ZyanAllocator", "allocator")
        f.update(allocator=Ptr(al), buffer=NULLP, capacity=ZERO)
        c.run(Ptr(reg), es, d, Ptr(al))
    else:
        f.update(buffer=NULLP, capacity=ZERO)
        c.run(Ptr(reg), es, d)
    for ex in c.exits:
        if c.success(ex):
            for k, v in f.items():
                c.prove_eq(LINK, "a new list is empty and knows its memory", ex, c.cell(ex, reg, "ZyanList", k), v)
            if fn == "ZyanListInit":
                a = c.cell(ex, reg, "ZyanList", "allocator")
                c.require(LINK, "the default allocator is used", ex, isinstance(a, Ptr) and a.r.kind == "global", repr(a))
        else:
            c.require(FAIL, "only invalid arguments are rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            t = ex.st.assume(usable)
            if fn == "ZyanListInitCustomBuffer":
                t = t and t.assume(cap - 1)
                if t is not None and t.null.get(buf.id) is True:
                    t = None
            c.require(FAIL, "valid arguments are accepted", Exit(t, ex.ret) if t else ex, t is None, repr(ex.ret))


def nulls(w, mem):
    def check(fn, what, *args):
        c = Case(w, fn, "missing " + what, mem)
        c.run(*[x(c) if callable(x) else x for x in args])
        for ex in c.exits:
            c.require(FAIL, "a missing %s is rejected" % what, ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
    N = NULLP
    n = lambda c: c.sym("value", 1, 255)
    o = lambda c: Ptr(c.out("result"))
    b = lambda c: lst(c).ptr

    def nd(c):
        L = lst(c)
        c.assume(L.n - 1)
        return Ptr(L.N)
    for fn in ("Destroy", "PopBack", "PopFront", "Clear"):
        check("ZyanList" + fn, "list", N)
    for fn in ("GetHeadNode", "GetTailNode", "PushBack", "PushFront", "GetSize"):
        check("ZyanList" + fn, "list", N, o)
    for fn in ("PushBack", "PushFront"):
        check("ZyanList" + fn, "item", b, N)
    for fn in ("EmplaceBack", "EmplaceFront"):
        check("ZyanList" + fn, "list", N, o, N)
        check("ZyanList" + fn, "item", b, N, N)
    check("ZyanListResize", "list", N, n)
    check("ZyanListResizeEx", "list", N, n, N)
    check("ZyanListGetPrevNode", "node", N)
    check("ZyanListGetNextNode", "node", N)
    check("ZyanListGetNodeDataEx", "node", N, o)
    check("ZyanListGetNodeDataMutableEx", "node", N, o)
    check("ZyanListSetNodeData", "list", N, nd, o)
    check("ZyanListSetNodeData", "node", b, N, o)
    check("ZyanListSetNodeData", "value", b, nd, N)
    check("ZyanListRemove", "list", N, nd)
    check("ZyanListRemove", "node", b, N)
    check("ZyanListRemoveRange", "list", N, nd, nd)
    check("ZyanListRemoveRange", "first node", b, N, nd)
    check("ZyanListRemoveRange", "last node", b, nd, N)
    check("ZyanListInitEx", "list", N, n, N, lambda c: Ptr(c.struct("ZyanAllocator", "allocator")))
    check("ZyanListInitEx", "element size", lambda c: Ptr(c.struct("ZyanList", "list")), ZERO, N, lambda c: Ptr(c.struct("ZyanAllocator", "allocator")))
    check("ZyanListInitEx", "allocator", lambda c: Ptr(c.struct("ZyanList", "list")), n, N, N)
    check("ZyanListInit", "list", N, n, N)
    check("ZyanListInit", "element size", lambda c: Ptr(c.struct("ZyanList", "list")), ZERO, N)
    check("ZyanListInitCustomBuffer", "list", N, n, N, o, n)
    check("ZyanListInitCustomBuffer", "element size", lambda c: Ptr(c.struct("ZyanList", "list")), ZERO, N, o, n)
    check("ZyanListInitCustomBuffer", "capacity", lambda c: Ptr(c.struct("ZyanList", "list")), n, N, o, ZERO)
    check("ZyanListInitCustomBuffer", "buffer", lambda c: Ptr(c.struct("ZyanList", "list")), n, N, N, n)
    for fn in ("ZyanListGetNodeData", "ZyanListGetNodeDataMutable"):
        c = Case(w, fn, "missing node", mem)
        c.run(N)
        for ex in c.exits:
            c.prove_eq(FAIL, "a missing node has no element", ex, ex.ret, NULLP)


SERVES = ["L0[123]", "M01"]


def tasks(prop=None):
    mem = MEM
    T = []
    for dyn in (True, False):
        for fn in ("ZyanListPushBack", "ZyanListPushFront", "ZyanListEmplaceBack", "ZyanListEmplaceFront"):
            T += [(push, fn, dyn, e, mem) for e in (True, False)]
        for fn in ("ZyanListPopBack", "ZyanListPopFront"):
            T += [(pop, fn, dyn, e, d, mem) for e in (True, False) for d in ((True, False) if not e else (None,))]
        for fn in ("ZyanListRemove", "ZyanListRemoveRange"):
            T += [(remove, fn, dyn, d, mem) for d in (True, False)]
        for fn in ("ZyanListClear", "ZyanListResize", "ZyanListResizeEx"):
            T += [(clear, fn, dyn, d, mem) for d in (True, False)]
        for fn in ("ZyanListResize", "ZyanListResizeEx"):
            T += [(shrink, fn, dyn, d, mem) for d in (True, False)] + [(same_size, fn, dyn, mem)]
            for e in (True, False):
                T += [(grow, fn, dyn, e, m, g, mem) for m in ((0,) if dyn else (1, 2, 3)) for g in ((False, True) if fn.endswith("Ex") else (False,))]
        T += [(destroy, dyn, d, mem) for d in (True, False)]
    T += [(init, fn, mem) for fn in ("ZyanListInit", "ZyanListInitEx", "ZyanListInitCustomBuffer")]
    T += [(access, mem), (nulls, mem)]
    return T
