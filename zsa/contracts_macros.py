"""Contracts of the container macros of the public headers (H01), as instantiated in macros.c for C and for C++."""
from .contracts_vector import *

CONFIG = "macros"
SERVES = ["H01"]
H = ("H01",)
ES = 12          # sizeof(Elem)
FIELD = 4        # offsetof(Elem, b)


def case(w, fn, name="every use"):
    return Case(w, fn, name, H, models={"mac_visit": visitor("value"), "mac_visit_pointer": visitor("element"), "mac_visit_pair": visitor("pair"),
                                           "mac_visit_names": visitor("names")})


def visitor(what):
    def visit(I, st, inst, a):
        st = st.fork()
        I.emit(st, "user", what, a, None, inst)
        return [(st, None)]
    return visit


def initializer(w, fn, tname, fields, base=0):
    c = case(w, fn)
    out = c.region("object", K(w.lay.size(tname)), "cells")
    out.init_content = "undef"
    c.run(Ptr(out))
    c.require(H, "the initialiser gives a value", c.exits[0], len(c.exits) == 1)
    for ex in c.exits:
        for t, f, size, want in fields:
            off = (w.lay.off(tname, "vector") if t != tname and tname == "ZyanString" else 0) + w.lay.off(t, f)
            v = c.I.read(ex.st, out, K(off), size, want == "null")
            c.require(H, "%s: has one value" % f, ex, len(v) == 1)
            c.prove_eq(H, "an initialised object is empty: %s" % f, ex, v[0][1], NULLP if want == "null" else ZERO)


VEC = [("ZyanVector", "allocator", 8, "null"), ("ZyanVector", "growth_factor", 1, 0), ("ZyanVector", "shrink_threshold", 1, 0), ("ZyanVector", "size", 8, 0),
       ("ZyanVector", "capacity", 8, 0), ("ZyanVector", "element_size", 8, 0), ("ZyanVector", "destructor", 8, "null"), ("ZyanVector", "data", 8, "null")]
STR = [("ZyanString", "flags", 1, 0)] + VEC
LIST = [("ZyanList", f, 8, x) for f, x in (("allocator", "null"), ("size", 0), ("element_size", 0), ("destructor", "null"), ("head", "null"), ("tail", "null"),
                                           ("buffer", "null"), ("capacity", 0), ("first_unused", "null"))]


def view(w, fn, text):
    c = case(w, fn, "the literal %r" % text)
    out = c.region("view", K(w.lay.size("ZyanStringView")), "cells")
    out.init_content = "undef"
    c.run(Ptr(out))
    b = w.lay.off("ZyanString", "vector")
    vo = lambda f: b + w.lay.off("ZyanVector", f)
    n = len(text) + 1
    for ex in c.exits:
        def fld(off, size, ptr=False):
            v = c.I.read(ex.st, out, K(off), size, ptr)
            return v[0][1] if len(v) == 1 else None
        for f, size, want in (("size", 8, K(n)), ("capacity", 8, K(n)), ("element_size", 8, ONE), ("growth_factor", 1, ONE), ("shrink_threshold", 1, ZERO)):
            c.prove_eq(H, "a view describes the whole string and its terminator: %s" % f, ex, fld(vo(f), size), want)
        c.prove_eq(H, "a view has no flags", ex, fld(w.lay.off("ZyanString", "flags"), 1), ZERO)
        c.prove_eq(H, "a view never allocates", ex, fld(vo("allocator"), 8, True), NULLP)
        c.prove_eq(H, "a view has no destructor", ex, fld(vo("destructor"), 8, True), NULLP)
        d = fld(vo("data"), 8, True)
        ok = isinstance(d, Ptr) and d.r.kind == "global" and d.o.const() == 0
        c.require(H, "a view refers to the characters", ex, ok, repr(d))
        if ok:
            c.prove_eq(H, "a view refers to the characters: all of them", ex, d.r.size, K(n))
            for i, x in enumerate(text.encode() + b"\0"):
                v = c.I.read(ex.st, d.r, K(i), 1, False)
                c.prove_eq(H, "a view refers to the characters", ex, v[0][1], K(x))


def to_view(w, fn="mac_to_view", k=0):
    c = case(w, fn)
    n = w.lay.size("ZyanString")
    s = c.region("strings", K(2 * n), "cells")
    c.run(Ptr(s))
    for ex in c.exits:
        c.prove_eq(H, "the view of a string is the string itself", ex, ex.ret, Ptr(s, K(k * n)))


def get(w, fn, expr=False, field=FIELD):
    c = case(w, fn, "index in range")
    v = vector(c, "vector", es=K(ES), destructor=False)
    i = c.sym("index")
    c.assume(v.size - 1 - i)
    if expr:
        j = c.sym("subtrahend")
        c.assume(v.size - 1 - j)
        c.run(v.ptr, i + j, j)
    else:
        c.run(v.ptr, i)
    for ex in c.exits:
        c.prove_eq(H, "reads the element at the index", ex, ex.ret, c.initial(ex.st, v.data, i * ES + field, 4))


def get_and(w, fn, j):
    c = case(w, fn, "index & %d" % j)
    v = vector(c, "vector", es=K(ES), destructor=False)
    i = c.sym("index", 8, 15)
    c.assume(v.size - 16)
    c.run(v.ptr, i, K(j))
    for ex in c.exits:
        c.prove_eq(H, "reads the element at the index", ex, ex.ret, c.initial(ex.st, v.data, (i if j == 15 else i - 8) * ES + FIELD, 4))


def get_either(w, fn, first):
    c = case(w, fn, "a condition that selects the %s vector" % ("first" if first else "second"))
    v = vector(c, "vector", es=K(ES), destructor=False)
    x = vector(c, "other", es=K(ES), destructor=False)
    y = v if first else x
    i = c.sym("index")
    c.assume(y.size - 1 - i)
    c.run(v.ptr, x.ptr, i, K(1 if first else 0))
    for ex in c.exits:
        c.prove_eq(H, "reads the element of the selected vector", ex, ex.ret, c.initial(ex.st, y.data, i * ES + FIELD, 4))


def list_get(w, fn="mac_list_get", first=None, field=FIELD):
    c = case(w, fn, "every use" if first is None else "a condition that selects the %s node" % ("first" if first else "second"))
    head = w.lay.size("ZyanListNode")
    ns = []
    for name in ("node", "other"):
        n = c.region(name, K(head + ES), "cells")
        x = c.sym("value_" + name, 0, (1 << 32) - 1)
        c.st.setcell(n, head + field, 4, x)
        ns.append((n, x))
    if first is None:
        c.run(Ptr(ns[0][0]))
    else:
        c.run(Ptr(ns[0][0]), Ptr(ns[1][0]), K(1 if first else 0))
    for ex in c.exits:
        c.prove_eq(H, "reads the element of the node", ex, ex.ret, ns[0 if first in (None, True) else 1][1])


def each(c, ex, name, n, want):
    """the body ran once for every index below n, in order; want(state, event, index) checks its arguments"""
    st = ex.st
    evs = flat_events(st.events(), lambda e: e.kind == "user" and e.name == name)
    t = st.assume(n - 1)
    if t is None:
        for e, ctx in evs:
            u = st
            for le, p in ctx:
                u = u and u.assume(le.count - 1)
            c.require(H, "the body does not run for an empty vector", ex, u is None, repr(e))
        if not evs:
            c.ob(H, "the body does not run for an empty vector", "ok")
        return
    T = Exit(t, ex.ret)
    if not evs:
        return c.require(H, "the body runs once for every element", T, False, "it does not run")
    if all(not ctx for _, ctx in evs):
        c.prove_eq(H, "the body runs once for every element", T, K(len(evs)), n)
        for k, (e, _) in enumerate(evs):
            want(t, e, K(k))
        return
    if len(evs) != 1 or len(evs[0][1]) != 1 or len(evs[0][1][0][0].paths) != 1:
        return c.ob(H, "the body runs once for every element", "undecided", "%d calls" % len(evs))
    e, [(le, p)] = evs[0]
    c.prove_eq(H, "the body runs once for every element", T, le.count, n)
    j = V(le.j)
    u = t.assume(j)
    u = u and u.assume(le.count - 1 - j)
    if u is not None:
        want(u, e, j)


def foreach(w, fn, kind, off=0):
    c = case(w, fn)
    if off:
        holder = c.region("vectors", K(2 * w.lay.size("ZyanVector")), "cells")
        v = vector(c, "vector", es=K(ES), destructor=False, holder=holder, base=w.lay.size("ZyanVector"))
        arg = Ptr(holder)
    else:
        v = vector(c, "vector", es=K(ES), destructor=False)
        arg = v.ptr
    x = c.sym("written", 0, (1 << 32) - 1)
    c.run(*([arg, x] if kind == "write" else [arg]))
    for ex in c.exits:
        for f in v.f:
            c.prove_eq(H, "the loop leaves the vector itself alone: %s" % f, ex, vcell(c, ex, v, f), v.f[f])
        if kind == "value":
            each(c, ex, "value", v.size, lambda st, e, i: c.prove_eq(H, "the body sees the elements in order", st, e.args[0], c.initial(st, v.data, i * ES + FIELD, 4)))
        elif kind == "pointer":
            each(c, ex, "element", v.size, lambda st, e, i: c.prove_eq(H, "the body gets a pointer to each element in order", st, e.args[0], Ptr(v.data, i * ES)))
        else:
            p = c.sym("p", 0)
            t = ex.st.assume(v.size - 1 - p)
            if t is None:
                c.ob(H, "what the body writes to an element stays there", "ok", "vacuous")
                continue
            for u, val in c.I.read(t, v.data, p * ES + FIELD, 4, False):
                c.prove_eq(H, "what the body writes to an element stays there", u, val, x)
            for o in (0, 8):
                for u, val in c.I.read(t, v.data, p * ES + o, 4, False):
                    c.prove_eq(H, "nothing else is written", u, val, c.initial(u, v.data, p * ES + o, 4))


def leaves(w, fn, kind):
    """break in the body ends the loop"""
    c = case(w, fn)
    v = vector(c, "vector", es=K(ES), destructor=False)
    c.run(v.ptr)
    for ex in c.exits:
        evs = flat_events(ex.st.events(), lambda e: e.kind == "user")
        t = ex.st.assume(v.size - 1)
        if t is None:
            c.require(H, "the body does not run for an empty vector", ex, not evs)
            continue
        c.require(H, "break in the body ends the loop", Exit(t, ex.ret), len(evs) == 1 and not evs[0][1], "%d calls" % len(evs))
        if len(evs) == 1:
            e = evs[0][0]
            c.prove_eq(H, "the first element comes first", t, e.args[0], c.initial(t, v.data, K(FIELD), 4) if kind == "value" else Ptr(v.data))


def names(w, fn):
    c = case(w, fn)
    v = vector(c, "vector", es=K(ES), destructor=False)
    own = [c.sym(n) for n in ("i", "j", "n", "size", "index", "count", "item")]
    c.run(v.ptr, *own)
    for ex in c.exits:
        def want(st, e, i):
            c.prove_eq(H, "the body sees the elements in order", st, e.args[0], c.initial(st, v.data, i * ES + FIELD, 4))
            for a, b in zip(e.args[1:], own):
                c.prove_eq(H, "names in the body mean what they mean outside", st, a, b)
        each(c, ex, "names", v.size, want)


def nested(w):
    c = case(w, "mac_foreach_nested")
    v = vector(c, "outer", es=K(4), destructor=False)
    x = vector(c, "inner", es=K(4), destructor=False)
    c.run(v.ptr, x.ptr)
    for ex in c.exits:
        st = ex.st
        evs = flat_events(st.events(), lambda e: e.kind == "user")
        for e, ctx in evs:
            if len(ctx) != 2 or any(len(le.paths) > 2 for le, _ in ctx):
                c.ob(H, "nested loops run over all pairs", "undecided", "%d loops" % len(ctx))
                continue
            (lo, po), (li, pi) = ctx
            u = st.assume(lo.count - 1 - V(lo.j))
            u = u and u.assume(V(lo.j))
            for cnd in po.conds:
                u = u and u.assume(cnd)
            u = u and u.assume(li.count - 1 - V(li.j))
            if u is None:
                continue
            c.prove_eq(H, "nested loops run over all pairs: outer count", u, lo.count, v.size)
            c.prove_eq(H, "nested loops run over all pairs: inner count", u, li.count, x.size)
            c.prove_eq(H, "nested loops run over all pairs: outer element", u, e.args[0], c.initial(u, v.data, V(lo.j) * 4, 4))
            c.prove_eq(H, "nested loops run over all pairs: inner element", u, e.args[1], c.initial(u, x.data, V(li.j) * 4, 4))
        t = st.assume(v.size - 1)
        t = t and t.assume(x.size - 1)
        if t is not None:
            c.require(H, "nested loops run over all pairs", Exit(t, ex.ret), bool(evs), "the body does not run")


def tasks(prop=None):
    return [(initializer, "mac_vector_initializer", "ZyanVector", VEC), (initializer, "mac_string_initializer", "ZyanString", STR), (initializer, "mac_list_initializer", "ZyanList", LIST),
            (view, "mac_view", "zydis"), (view, "mac_view_empty", ""), (view, "mac_view_array", "abcdefg"), (view, "mac_view_embedded", "a\0b"),
            (to_view,), (to_view, "mac_to_view_element", 1), (get, "mac_vector_get"), (get, "mac_vector_get_expression", True), (get, "mac_vector_get_prefix", False, 0),
            (get_and, "mac_vector_get_shifted", 15), (get_and, "mac_vector_get_shifted", 7),
            (get_either, "mac_vector_get_either", True), (get_either, "mac_vector_get_either", False),
            (list_get,), (list_get, "mac_list_get_either", True), (list_get, "mac_list_get_either", False), (list_get, "mac_list_get_element", None, 0),
            (foreach, "mac_foreach", "value"), (foreach, "mac_foreach_mutable", "pointer"), (foreach, "mac_foreach_write", "write"),
            (foreach, "mac_foreach_expression", "value", 1), (foreach, "mac_foreach_continue", "value"), (foreach, "mac_foreach_mutable_continue", "pointer"),
            (leaves, "mac_foreach_break", "value"), (leaves, "mac_foreach_mutable_break", "pointer"), (names, "mac_foreach_names"), (names, "mac_foreach_mutable_names"),
            (nested,)]
