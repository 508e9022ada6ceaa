"""Contracts of the allocator component (default allocator, allocator objects) and of what is built on it."""
from .world import *
from .contracts_vector import *

OUT = ("M01",)
SERVES = ["M01", "V0[1-7]"]
FIELDS = ("allocate", "reallocate", "deallocate")


def calls(ex, *names):
    return [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "libc" and e.name in names]


def default_allocator(w, mem):
    """[(function name)] of the three members of the default allocator"""
    c = Case(w, "ZyanAllocatorDefault", "any", mem)
    c.run()
    ex = c.exits[0]
    r = ex.ret
    if not (isinstance(r, Ptr) and r.r.kind == "global"):
        c.require(OUT, "a default allocator is provided", ex, False, repr(r))
        return None
    names = []
    for f in FIELDS:
        rs = c.I.read(ex.st, r.r, r.o + w.lay.off("ZyanAllocator", f), 8, True)
        v = rs[0][1] if len(rs) == 1 else None
        ok = isinstance(v, Ptr) and v.r.kind == "fn" and not v.r.maybe_null
        c.require(OUT, "the default allocator provides %s" % f, ex, ok, repr(v))
        names.append(v.r.fname if ok else None)
    return names


def default_functions(w, mem):
    names = default_allocator(w, mem)
    if names is None:
        return
    if names[0]:
        allocate(w, names[0], mem)
    if names[1]:
        reallocate(w, names[1], mem)
    if names[2]:
        deallocate(w, names[2], mem)


def why(c, ex, es, n):
    """a failing request: the C library refused, or the byte size is not representable"""
    c.require(OUT, "failed allocations are reported as out of memory", ex, c.isstatus(ex, "NOT_ENOUGH_MEMORY"), repr(ex.ret))
    if not any(isinstance(e.ret, Ptr) and e.ret.r is NULLR for e in calls(ex, "malloc", "realloc", "calloc")):
        c.prove(OUT, "a representable request is passed on", ex, es * n - (1 << 63))


def live(ex, before=()):
    return [e.ret.r for e in calls(ex, "malloc", "realloc", "calloc") if isinstance(e.ret, Ptr) and e.ret.r is not NULLR and e.ret.r.id not in ex.st.freed]


def allocate(w, fn, mem):
    c = Case(w, fn, "default allocator", mem)
    a = c.struct("ZyanAllocator", "allocator")
    out = c.out("pointer")
    es, n = c.sym("element_size", 1), c.sym("n", 1)
    c.run(Ptr(a), Ptr(out), es, n)
    for ex in c.exits:
        lv = live(ex)
        if c.success(ex):
            v = c.outval(ex, out)
            ok = isinstance(v, Ptr) and v.r.kind == "heap" and v.o.const() == 0 and [v.r] == lv
            c.require(OUT, "a successful request yields exactly one block", ex, ok, "%r %r" % (v, lv))
            if ok:
                c.prove(OUT, "the block is as large as requested", ex, v.r.size - es * n)
        else:
            why(c, ex, es, n)
            c.require(OUT, "a failing request keeps no memory", ex, not lv, repr(lv))


def reallocate(w, fn, mem):
    c = Case(w, fn, "default allocator", mem)
    a = c.struct("ZyanAllocator", "allocator")
    es, n, m = c.sym("element_size", 1), c.sym("n", 1), c.sym("old_n", 1)
    c.assume(K(MAXB) - es * m)
    old = c.region("block", es * m, kind="heap")
    cell = c.region("pointer", K(8), "cells")
    c.st.setcell(cell, 0, 8, Ptr(old))
    c.run(Ptr(a), Ptr(cell), es, n)
    for ex in c.exits:
        v = c.outval(ex, cell)
        lv = [r for r in live(ex)]
        if c.success(ex):
            ok = isinstance(v, Ptr) and v.r.kind == "heap" and v.o.const() == 0 and [v.r] == lv and old.id in ex.st.freed
            c.require(OUT, "a successful reallocation replaces the block by exactly one other", ex, ok, "%r %r" % (v, lv))
            if ok:
                c.prove(OUT, "the block is as large as requested", ex, v.r.size - es * n)
                p = c.sym("p")
                t = ex.st.assume(es * m - 1 - p)
                t = t and t.assume(es * n - 1 - p)
                for u, b in (c.I.read(t, v.r, p, 1, False) if t else ()):
                    r = c.eqv(u, b, c.initial(u, old, p))
                    c.ob(OUT, "the content is kept", r[0], r[1])
        else:
            why(c, ex, es, n)
            c.prove_eq(OUT, "a failed reallocation keeps the old block and the caller's pointer", ex, v, Ptr(old))
            c.require(OUT, "a failed reallocation keeps the old block and the caller's pointer", ex, old.id not in ex.st.freed)
            c.require(OUT, "a failing request keeps no memory", ex, not lv, repr(lv))


def deallocate(w, fn, mem):
    c = Case(w, fn, "default allocator", mem)
    a = c.struct("ZyanAllocator", "allocator")
    es, n = c.sym("element_size", 1), c.sym("n", 1)
    c.assume(K(MAXB) - es * n)
    old = c.region("block", es * n, kind="heap")
    c.run(Ptr(a), Ptr(old), es, n)
    for ex in c.exits:
        c.require(OUT, "releasing succeeds", ex, c.success(ex) is True, repr(ex.ret))
        c.require(OUT, "exactly the given block is released", ex, ex.st.freed == frozenset([old.id]), repr(ex.st.freed))


def init_object(w, mem):
    c = Case(w, "ZyanAllocatorInit", "any", mem)
    a = c.struct("ZyanAllocator", "allocator")
    fs = [c.fnptr(f, None, maybe_null=True) for f in FIELDS]
    c.run(Ptr(a), *[Ptr(f) for f in fs])
    for ex in c.exits:
        null = [ex.st.null.get(f.id) for f in fs]
        if c.success(ex):
            for f, x in zip(fs, FIELDS):
                c.require(OUT, "a missing allocator function is rejected", ex, ex.st.null.get(f.id) is False, x)
                off = w.lay.off("ZyanAllocator", x)
                rs = c.I.read(ex.st, a, K(off), 8, True)
                c.prove_eq(OUT, "the allocator object holds the given functions", ex, rs[0][1], Ptr(f))
        else:
            c.require(OUT, "only a missing function makes an allocator invalid", ex, c.isstatus(ex, "INVALID_ARGUMENT") and any(null), repr(ex.ret))
    c = Case(w, "ZyanAllocatorInit", "no allocator", mem)
    c.run(NULLP, *[Ptr(c.fnptr(f, None)) for f in FIELDS])
    for ex in c.exits:
        c.require(OUT, "a missing allocator object is rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))


def vector_default(w, dup, mem):
    """vectors built with the default allocator"""
    c = Case(w, "ZyanVectorDuplicate" if dup else "ZyanVectorInit", "default allocator", mem)
    r = c.struct("ZyanVector", "destination" if dup else "vector")
    cap = c.sym("capacity")
    if dup:
        s = vector(c, "source", True)
        es, d = s.es, s.dtor
        c.run(Ptr(r), s.ptr, cap)
        n = s.size
    else:
        es = c.sym("element_size")
        d = c.fnptr("destructor", destructor_model(c), maybe_null=True)
        c.run(Ptr(r), es, cap, Ptr(d))
        n = ZERO
    for ex in c.exits:
        lv = live(ex)
        if c.success(ex):
            c.prove(("V07",), "zero element size is rejected", ex, es - 1)
            data = c.cell(ex, r, "ZyanVector", "data")
            ccap = c.cell(ex, r, "ZyanVector", "capacity")
            for f, x in (("size", n), ("element_size", es), ("destructor", Ptr(d)),
                         ("growth_factor", K(w.lay.val("ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR"))),
                         ("shrink_threshold", K(w.lay.val("ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD")))):
                c.prove_eq(("V02",), "initialised %s" % f, ex, c.cell(ex, r, "ZyanVector", f), x)
            ok = isinstance(ccap, P) and isinstance(data, Ptr) and data.r.kind == "heap" and data.o.const() == 0 and [data.r] == lv
            c.require(("V02", "M01"), "data is the allocated block", ex, ok, repr(data))
            if ok:
                c.prove(("V02",), "initial capacity is at least the requested one", ex, ccap - cap)
                c.prove(("V02",), "initial capacity covers the elements", ex, ccap - n)
                c.prove(("V02",), "initial capacity is at least the minimum", ex, ccap - 1)
                c.prove(("V02", "M01"), "capacity does not exceed the allocated block", ex, data.r.size - ccap * es)
                if dup:
                    c.seq(("V05",), "a duplicate holds the source's elements in order", ex, data.r, ZERO, n, s.data, ZERO, es=es)
        else:
            c.require(("V02",), "a failed construction keeps no memory", ex, not lv, repr(lv))
            if c.isstatus(ex, "INVALID_ARGUMENT"):
                t = ex.st.assume(es - 1)
                c.require(("V07",), "valid arguments are accepted", Exit(t, ex.ret) if t else ex, t is None)
            else:
                c.require(("V03",), "failed allocations are reported as out of memory", ex, c.isstatus(ex, "NOT_ENOUGH_MEMORY"), repr(ex.ret))
        if dup:
            unchanged(c, ex, s, ("V05",), "source")


def tasks(prop=None):
    T = [(vector_default, False, ("V01",)), (vector_default, True, ("V01",))]
    T += [(default_functions, ("M01",)), (init_object, ("M01",))]
    return T
