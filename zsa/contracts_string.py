"""Contracts of the string component."""
from .world import *
from .contracts_vector import *
from . import contracts_vector as cv

MEM = ("S01",)
INV, EDIT, FAIL, VIEW, FIND, CMP = ("S02",), ("S03",), ("S04",), ("S05",), ("S06",), ("S07",)


class Str:
    pass


def string(c, name="string", dyn=True):
    s = Str()
    s.reg = c.struct("ZyanString", name)
    s.v = vector(c, name, dyn, es=ONE, base=c.w.lay.off("ZyanString", "vector"), holder=s.reg, destructor=False, minsize=1)
    s.fixed = c.w.lay.val("ZYAN_STRING_HAS_FIXED_CAPACITY")
    s.flags = ZERO if dyn else K(s.fixed)
    c.st.setcell(s.reg, c.w.lay.off("ZyanString", "flags"), c.w.lay.c["sizeof_flags"], s.flags)
    s.len = s.v.size - 1
    s.v.data.term = s.len
    s.data = s.v.data
    s.ptr = Ptr(s.reg)
    s.dyn = dyn
    return s


def view(c, name="source", minlen=0, length=None):
    """a view as the view constructors leave it: only data and size are set, no terminator is guaranteed"""
    s = Str()
    s.reg = c.struct("ZyanStringView", name)
    s.reg.init_content = "undef"
    s.base = c.w.lay.off("ZyanStringView", "string") + c.w.lay.off("ZyanString", "vector")
    s.len = c.sym(name + ".length", minlen, MAXB) if length is None else K(length)
    s.data = c.region(name + ".chars", s.len)
    c.set(s.reg, "ZyanVector", "data", Ptr(s.data), s.base)
    c.set(s.reg, "ZyanVector", "size", s.len + 1, s.base)
    s.ptr = Ptr(s.reg)
    return s


def view_unchanged(c, ex, s, props, what="source"):
    c.prove_eq(props, "the %s is unchanged" % what, ex, c.cell(ex, s.reg, "ZyanVector", "size", s.base), s.len + 1)
    c.prove_eq(props, "the %s is unchanged" % what, ex, c.cell(ex, s.reg, "ZyanVector", "data", s.base), Ptr(s.data))
    c.seq(props, "the %s is unchanged" % what, ex, s.data, ZERO, s.len, s.data, ZERO)


def terminated(c, ex, reg, at, props=INV, what="the string is terminated"):
    st = ex.st if isinstance(ex, Exit) else ex
    for u, val in c.I.read(st, reg, at, 1, False):
        r = c.eqv(u, val, ZERO)
        c.ob(props, what, r[0], r[1] + (c.pathinfo(ex) if r[0] != "ok" else ""))


def sinv(c, ex, s):
    r = inv(c, ex, s.v, INV, "string")
    fl = c.st.getcell(s.reg, c.w.lay.off("ZyanString", "flags"))
    g = ex.st.getcell(s.reg, c.w.lay.off("ZyanString", "flags"))
    c.require(INV, "string flags are unchanged", ex, g is not None and g == fl, repr(g))
    if r:
        c.prove(INV, "the terminator is counted", ex, r[0] - 1)
        terminated(c, ex, r[2].r, r[0] - 1)
    return r


def same(c, ex, s, props=FAIL):
    unchanged(c, ex, s.v, props, "string")


def content(c, ex, s, r, parts, props=EDIT):
    """parts: [(what, lo, hi, source region, shift)]; the last hi is the new length"""
    size, cap, data = r
    n = parts[-1][2]
    c.prove_eq(props, "length after the call", ex, size, n + 1)
    for what, lo, hi, src, shift in parts:
        c.seq(props, what, ex, data.r, lo, hi, src, shift)


def grow_fail(c, ex, s, need):
    growth_fail_ok(c, ex, s.v, need, FAIL)
    same(c, ex, s)


KEEP_LO, INS, KEEP_HI = "characters before the position keep their place", "the inserted characters appear at the position", "characters behind the position follow in order"


def insert(w, dyn, ext, mem):
    c = Case(w, "ZyanStringInsert" + ("Ex" if ext else ""), "dynamic" if dyn else "fixed buffer", mem)
    d = string(c, "destination", dyn)
    s = view(c)
    i = c.sym("index")
    if ext:
        si, n = c.sym("source_index"), c.sym("count", 0, U64)
        c.run(d.ptr, i, s.ptr, si, n)
    else:
        si, n = ZERO, s.len
        c.run(d.ptr, i, s.ptr)
    for ex in c.exits:
        view_unchanged(c, ex, s, FAIL)
        r = sinv(c, ex, d)
        st = ex.st
        if c.success(ex):
            c.prove(FAIL, "an insert position beyond the string is rejected", ex, d.len + 1 - i)
            if ext:
                c.prove(FAIL, "a source range beyond the source is rejected", ex, s.len - si - n)
            if r:
                for t in st.split(d.len - i):
                    if t is not None:
                        at = i if t.entails(d.len - i) else d.len
                        content(c, Exit(t, ex.ret), d, r, [(KEEP_LO, ZERO, at, d.data, ZERO), (INS, at, at + n, s.data, si - at), (KEEP_HI, at + n, d.len + n, d.data, -n)])
                capacity_policy(c, ex, d.v, d.len + n + 1, "auto", INV)
        else:
            rejected(c, ex, d, [i - d.len - 1] + ([si + n - s.len - 1] if ext else []), n, d.len + n + 1)


def rejected(c, ex, d, bad, empty, need, grow=True):
    """a failing exit: OUT_OF_RANGE iff one of the `bad` conditions holds; a no-op request (empty) may be refused as INVALID_ARGUMENT"""
    st = ex.st
    same(c, ex, d)
    if c.isstatus(ex, "OUT_OF_RANGE"):
        t = st
        for b in bad:
            t = t and t.assume(-b - 1)
        c.require(FAIL, "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
        return
    for b in bad:
        c.prove(FAIL, "OUT_OF_RANGE is returned whenever it applies", ex, -b - 1 if b is not bad[0] else K(0) - b - 1 + (1 if len(bad) and grow else 0))
    if c.isstatus(ex, "INVALID_ARGUMENT"):
        c.prove(FAIL, "a valid request is not rejected as invalid", ex, -empty)
    elif grow:
        growth_fail_ok(c, ex, d.v, need, FAIL)
    else:
        c.require(FAIL, "fails only for its documented reasons", ex, False, repr(ex.ret))


def append(w, dyn, ext, selfsrc, mem):
    c = Case(w, "ZyanStringAppend" + ("Ex" if ext else ""), ("dynamic" if dyn else "fixed buffer") + (", string appended to itself" if selfsrc else ""), mem)
    d = string(c, "destination", dyn)
    s = d if selfsrc else view(c)
    if ext:
        si, n = c.sym("source_index"), c.sym("count", 0, U64)
        c.run(d.ptr, s.ptr, si, n)
    else:
        si, n = ZERO, s.len
        c.run(d.ptr, s.ptr)
    for ex in c.exits:
        if not selfsrc:
            view_unchanged(c, ex, s, FAIL)
        r = sinv(c, ex, d)
        if c.success(ex):
            if ext:
                c.prove(FAIL, "a source range beyond the source is rejected", ex, s.len - si - n)
            if r:
                content(c, ex, d, r, [("existing characters keep their place", ZERO, d.len, d.data, ZERO),
                                      ("the appended characters follow", d.len, d.len + n, s.data, si - d.len)])
                capacity_policy(c, ex, d.v, d.len + n + 1, "auto", INV)
        elif c.isstatus(ex, "OUT_OF_RANGE"):
            same(c, ex, d)
            c.prove(FAIL, "OUT_OF_RANGE is returned only when it applies", ex, (si + n - s.len - 1) if ext else K(-1))
        elif c.isstatus(ex, "INVALID_ARGUMENT"):
            same(c, ex, d)
            c.prove(FAIL, "a valid request is not rejected as invalid", ex, -n)
        else:
            grow_fail(c, ex, d, d.len + n + 1)


def delete(w, dyn, trunc, mem):
    c = Case(w, "ZyanStringTruncate" if trunc else "ZyanStringDelete", "dynamic" if dyn else "fixed buffer", mem)
    d = string(c, "string", dyn)
    i = c.sym("index")
    if trunc:
        n = d.len - i
        c.run(d.ptr, i)
        over = i - d.len - 1
    else:
        n = c.sym("count")
        c.run(d.ptr, i, n)
        over = i + n - d.len - 1
    for ex in c.exits:
        r = sinv(c, ex, d)
        if c.isstatus(ex, "OUT_OF_RANGE"):
            c.prove(FAIL, "OUT_OF_RANGE is returned only when it applies", ex, over)
            same(c, ex, d)
            continue
        c.prove(FAIL, "OUT_OF_RANGE is returned whenever it applies", ex, -over - 1)
        if c.success(ex):
            if r:
                content(c, ex, d, r, [("characters before the removed range keep their place", ZERO, i, d.data, ZERO),
                                      ("characters behind the removed range close the gap in order", i, d.len - n, d.data, n)])
                capacity_policy(c, ex, d.v, d.len - n + 1, "auto", INV)
        else:
            same(c, ex, d)
            c.require(FAIL, "fails only for its documented reasons", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            c.prove(FAIL, "a valid request is not rejected", ex, -n)


def resize_(w, dyn, op, mem):
    c = Case(w, "ZyanString" + op, "dynamic" if dyn else "fixed buffer", mem)
    d = string(c, "string", dyn)
    n = ZERO if op == "Clear" else c.sym("size")
    c.run(*([d.ptr] + ([] if op in ("Clear", "ShrinkToFit") else [n])))
    for ex in c.exits:
        r = sinv(c, ex, d)
        if c.success(ex):
            if not r:
                continue
            if op in ("Clear", "Resize"):
                c.prove_eq(EDIT, "length after the call", ex, r[0], n + 1)
                for t, lim in zip(ex.st.split(n - d.len), (d.len, n)):
                    if t is not None:
                        c.seq(EDIT, "surviving characters keep their place", Exit(t, ex.ret), r[2].r, ZERO, lim, d.data, ZERO)
                if op == "Resize":
                    capacity_policy(c, ex, d.v, n + 1, "auto", INV)
                else:
                    # clearing goes through the empty state, which may hold on to one element only
                    pass
            else:
                content(c, ex, d, r, [("characters keep their place", ZERO, d.len, d.data, ZERO)])
                if op == "Reserve":
                    c.prove(INV, "the reserved capacity is available", ex, r[1] - n - 1)
                    c.prove(INV, "reserving never lowers the capacity", ex, r[1] - d.v.cap)
                    capacity_policy(c, ex, d.v, n + 1, None, INV)
                elif dyn:
                    c.prove_eq(INV, "shrinking makes the capacity match the size", ex, r[1], d.v.size)
        else:
            same(c, ex, d)
            if op == "Clear":
                c.require(FAIL, "clearing never fails", ex, False, repr(ex.ret))
            elif op == "ShrinkToFit":
                e = allocfail(ex)
                c.require(FAIL, "fails only through the allocator", ex, e is not None and ex.ret == e.ret, repr(ex.ret))
            else:
                e = allocfail(ex)
                if e is not None:
                    c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, e.ret)
                elif dyn:
                    c.prove(FAIL, "failure without an allocator error only for unrepresentable sizes", ex, (n + 1) * (d.v.gf if op == "Resize" else 1) - (1 << 63))
                else:
                    c.require(FAIL, "full fixed buffer is reported", ex, c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE") or c.isstatus(ex, "NOT_ENOUGH_MEMORY"), repr(ex.ret))
                    c.prove(FAIL, "fixed buffer overflow is reported only when it happens", ex, n + 1 - d.v.cap - 1)


def chars(w, mem):
    for dyn in (True, False):
        c = Case(w, "ZyanStringSetChar", "dynamic" if dyn else "fixed buffer", mem)
        d = string(c, "string", dyn)
        i, x = c.sym("index"), c.sym("value", 0, 255)
        c.run(d.ptr, i, x)
        for ex in c.exits:
            r = sinv(c, ex, d)
            index_range(c, ex, i, d.len)
            if c.success(ex):
                if r:
                    content(c, ex, d, r, [("other characters are unchanged (below)", ZERO, i, d.data, ZERO), ("the character is set", i, i + 1, lambda st, p: x, ZERO),
                                          ("other characters are unchanged (above)", i + 1, d.len, d.data, ZERO)])
            else:
                same(c, ex, d)
    c = Case(w, "ZyanStringGetCharMutable", "any", mem)
    d = string(c)
    i, out = c.sym("index"), c.out("value")
    c.run(d.ptr, i, Ptr(out))
    for ex in c.exits:
        sinv(c, ex, d)
        same(c, ex, d)
        index_range(c, ex, i, d.len)
        if c.success(ex):
            c.prove_eq(EDIT, "the addressed character is returned", ex, c.outval(ex, out), Ptr(d.data, i))
    for kind in ("view", "string"):
        c = Case(w, "ZyanStringGetChar", kind, mem)
        d = view(c) if kind == "view" else string(c)
        i, out = c.sym("index"), c.out("value", 1)
        c.run(d.ptr, i, Ptr(out))
        for ex in c.exits:
            index_range(c, ex, i, d.len)
            if kind == "view":
                view_unchanged(c, ex, d, EDIT)
            if c.success(ex):
                c.prove_eq(EDIT, "the addressed character is returned", ex, c.outval(ex, out), c.initial(ex.st, d.data, i))


def index_range(c, ex, i, n):
    if c.success(ex):
        c.prove(FAIL, "an index outside the string is rejected", ex, n - 1 - i)
    else:
        c.require(FAIL, "an index outside the string is reported as OUT_OF_RANGE", ex, c.isstatus(ex, "OUT_OF_RANGE"), repr(ex.ret))
        c.prove(FAIL, "OUT_OF_RANGE is returned only when it applies", ex, i - n)


def info(w, mem):
    for fn, f in (("ZyanStringGetCapacity", "capacity"), ("ZyanStringGetSize", "size"), ("ZyanStringGetData", "data")):
        c = Case(w, fn, "any", mem)
        d = string(c)
        out = c.out("out")
        c.run(d.ptr, Ptr(out))
        for ex in c.exits:
            sinv(c, ex, d)
            same(c, ex, d, EDIT)
            c.require(FAIL, "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
            want = {"capacity": d.v.cap - 1, "size": d.len, "data": Ptr(d.data)}[f]
            c.prove_eq(EDIT, "the %s is reported without the terminator" % f if f != "data" else "the characters are returned", ex, c.outval(ex, out), want)


# ---------------------------------------------------------------------------------------- construction
def fresh_string(c, ex, reg, parts, mincap, fixed=None, al=None, gf=None, sh=None, what="the new string"):
    """the instance in `reg` is a valid string holding `parts`"""
    b = c.w.lay.off("ZyanString", "vector")
    g = {f: c.cell(ex, reg, "ZyanVector", f, b) for f in ("allocator", "size", "capacity", "element_size", "destructor", "data")}
    st = ex.st
    for f in ("growth_factor", "shrink_threshold"):
        x = st.getcell(reg, b + c.w.lay.off("ZyanVector", f))
        g[f] = x[1] if x else None
    fl = st.getcell(reg, c.w.lay.off("ZyanString", "flags"))
    n = parts[-1][2] if parts else ZERO
    c.prove_eq(EDIT, "length of the new string", ex, g["size"], n + 1)
    c.prove_eq(INV, "element size of the new string", ex, g["element_size"], ONE)
    c.prove_eq(INV, "no destructor in the new string", ex, g["destructor"], NULLP)
    c.prove_eq(INV, "flags of the new string", ex, fl[1] if fl else None, K(c.w.lay.val("ZYAN_STRING_HAS_FIXED_CAPACITY")) if fixed else ZERO)
    if al is not None:
        c.prove_eq(INV, "allocator of the new string", ex, g["allocator"], al)
        c.prove_eq(INV, "growth factor of the new string", ex, g["growth_factor"], gf)
        c.prove_eq(INV, "shrink threshold of the new string", ex, g["shrink_threshold"], sh)
    data = g["data"]
    ok = isinstance(data, Ptr) and data.r is not NULLR and data.o.const() == 0 and data.r.id not in st.freed and isinstance(g["capacity"], P)
    c.require(INV, "storage of the new string", ex, ok, repr(data))
    if not ok:
        return
    if fixed:
        c.require(INV, "the caller's buffer is the storage", ex, data.r is fixed[0], repr(data))
        c.prove_eq(INV, "the caller's buffer size is the capacity", ex, g["capacity"], fixed[1])
        c.prove_eq(INV, "a fixed string has no allocator", ex, g["allocator"], NULLP)
        c.prove_eq(INV, "a fixed string never shrinks", ex, g["shrink_threshold"], ZERO)
    elif data.r.size is not None:
        c.prove_eq(INV, "capacity equals the allocated block", ex, g["capacity"], data.r.size)
        c.prove(INV, "the requested capacity is available besides the terminator", ex, g["capacity"] - 1 - mincap)
        c.prove(INV, "the documented minimum capacity is available besides the terminator", ex, g["capacity"] - 1 - K(c.w.lay.val("ZYAN_STRING_MIN_CAPACITY")))
    c.prove(INV, "size never exceeds capacity", ex, g["capacity"] - n - 1)
    terminated(c, ex, data.r, n)
    for w_, lo, hi, src, shift in parts:
        c.seq(EDIT, w_, ex, data.r, lo, hi, src, shift)


def build(w, op, kind, mem):
    """op: Init | Duplicate | Concat; kind: ex (allocator) | buffer | default"""
    suffix = {"ex": "Ex", "buffer": "CustomBuffer", "default": ""}[kind]
    c = Case(w, "ZyanString%s%s" % (op, suffix), "any", mem)
    reg = c.struct("ZyanString", "destination")
    srcs = []
    if op == "Duplicate":
        srcs = [view(c)]
    elif op == "Concat":
        srcs = [view(c, "first"), view(c, "second")]
    args = [Ptr(reg)] + [s.ptr for s in srcs]
    cap = c.sym("capacity")
    al = gf = sh = None
    fixed = None
    if kind == "buffer":
        buf = c.region("buffer", cap)
        c.assume(K(MAXB) - cap)
        fixed = (buf, cap)
        args += [Ptr(buf), cap]
    elif kind == "ex":
        a = allocator(c)
        gf, sh = c.sym("growth_factor", 0, 255), c.sym("shrink_threshold", 0, 255)
        al = Ptr(a)
        args += [cap, al, gf, sh]
    else:
        args += [cap]
    c.run(*args)
    total = ZERO
    parts = []
    for k, s in enumerate(srcs):
        parts.append(("characters of the %s source" % ("first", "second")[k], total, total + s.len, s.data, -total))
        total = total + s.len
    for ex in c.exits:
        for s in srcs:
            view_unchanged(c, ex, s, EDIT)
        if kind == "default":
            al = c.I.default_allocator(c, ex) if hasattr(c.I, "default_allocator") else None
            gf, sh = K(w.lay.val("ZYAN_STRING_DEFAULT_GROWTH_FACTOR")), K(w.lay.val("ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD"))
        if c.success(ex):
            fresh_string(c, ex, reg, parts, cap, fixed, al, gf, sh)
            if kind == "buffer":
                c.prove(FAIL, "a buffer too small for the string is rejected", ex, cap - total - 1)
            if kind == "ex":
                c.prove(FAIL, "a growth factor below one is rejected", ex, gf - 1)
        elif kind == "buffer":
            if c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"):
                c.prove(FAIL, "a sufficient buffer is accepted", ex, total - cap)
            else:
                c.require(FAIL, "fails only for its documented reasons", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
                c.prove(FAIL, "a non-empty buffer is accepted", ex, -cap)
        else:
            noblock(c, ex)
            e = allocfail(ex)
            if e is not None:
                c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, e.ret)
            elif kind == "ex" and c.isstatus(ex, "INVALID_ARGUMENT"):
                c.prove(FAIL, "INVALID_ARGUMENT only for a growth factor below one", ex, -gf)
            else:
                c.require(FAIL, "out of memory is reported", ex, c.isstatus(ex, "NOT_ENOUGH_MEMORY"), repr(ex.ret))
                m = [e for e in ex.st.events() if isinstance(e, Ev) and e.name == "malloc"]
                if not m:
                    c.prove(FAIL, "failure without an allocator error only for unrepresentable sizes", ex, cap - (1 << 63))


def noblock(c, ex):
    for e in ex.st.events():
        if isinstance(e, Ev) and e.kind == "alloc" and e.x is not None and e.x.r.id not in ex.st.freed:
            c.require(INV, "a failed construction keeps no memory", ex, False, repr(e))


def destroy_(w, dyn, mem):
    c = Case(w, "ZyanStringDestroy", "dynamic" if dyn else "fixed buffer", mem)
    d = string(c, "string", dyn)
    c.run(d.ptr)
    for ex in c.exits:
        de = [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "alloc"]
        if dyn:
            c.require(INV + ("M01",), "the storage is released exactly once", ex, len(de) == 1 and de[0].name == "deallocate", repr(de))
            if de and de[0].ret.const() is None:
                c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, de[0].ret)
            else:
                c.require(FAIL, "succeeds", ex, c.success(ex) is True)
        else:
            c.require(INV + ("M01",), "a caller-provided buffer is never released", ex, not de, repr(de))
            c.require(FAIL, "succeeds", ex, c.success(ex) is True)


# ---------------------------------------------------------------------------------------- views
def views(w, mem):
    def out_view(c):
        r = c.struct("ZyanStringView", "view")
        r.init_content = "undef"
        return r
    base = w.lay.off("ZyanStringView", "string") + w.lay.off("ZyanString", "vector")

    def is_view(c, ex, reg, data, n):
        c.prove_eq(VIEW, "the view starts at the requested character", ex, c.cell(ex, reg, "ZyanVector", "data", base), data)
        c.prove_eq(VIEW, "the view has the requested length", ex, c.cell(ex, reg, "ZyanVector", "size", base), n + 1)
    c = Case(w, "ZyanStringViewInsideView", "any", mem)
    s, o = view(c), out_view(c)
    c.run(Ptr(o), s.ptr)
    for ex in c.exits:
        c.require(VIEW, "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        is_view(c, ex, o, Ptr(s.data), s.len)
        view_unchanged(c, ex, s, VIEW)
    c = Case(w, "ZyanStringViewInsideViewEx", "any", mem)
    s, o = view(c), out_view(c)
    i, n = c.sym("index"), c.sym("count")
    c.run(Ptr(o), s.ptr, i, n)
    for ex in c.exits:
        view_unchanged(c, ex, s, VIEW)
        if c.success(ex):
            c.prove(VIEW, "a range beyond the source is rejected", ex, s.len - i - n)
            is_view(c, ex, o, Ptr(s.data, i), n)
        else:
            c.require(VIEW, "a bad range is reported as OUT_OF_RANGE", ex, c.isstatus(ex, "OUT_OF_RANGE"), repr(ex.ret))
            c.prove(VIEW, "OUT_OF_RANGE is returned only when it applies", ex, i + n - s.len - 1)
    c = Case(w, "ZyanStringViewInsideBuffer", "any", mem)
    o = out_view(c)
    n = c.sym("length", 0, MAXB)
    cs = c.region("cstring", n + 1)
    cs.chars, cs.term, cs.cstr = n, n, True
    c.run(Ptr(o), Ptr(cs))
    for ex in c.exits:
        c.require(VIEW, "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        is_view(c, ex, o, Ptr(cs), n)
    c = Case(w, "ZyanStringViewInsideBufferEx", "any", mem)
    o = out_view(c)
    n = c.sym("length", 0, MAXB)
    cs = c.region("buffer", n)
    c.run(Ptr(o), Ptr(cs), n)
    for ex in c.exits:
        if c.success(ex):
            is_view(c, ex, o, Ptr(cs), n)
        else:
            c.require(VIEW, "fails only for an empty buffer", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            c.prove(VIEW, "fails only for an empty buffer", ex, -n)
    c = Case(w, "ZyanStringViewGetSize", "any", mem)
    s, o = view(c), c.out("size")
    c.run(s.ptr, Ptr(o))
    for ex in c.exits:
        c.require(VIEW, "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        c.prove_eq(VIEW, "the length is reported", ex, c.outval(ex, o), s.len)
        view_unchanged(c, ex, s, VIEW)
    c = Case(w, "ZyanStringViewGetData", "any", mem)
    s, o = view(c), c.out("data")
    c.run(s.ptr, Ptr(o))
    for ex in c.exits:
        c.require(VIEW, "succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        c.prove_eq(VIEW, "the characters are returned", ex, c.outval(ex, o), Ptr(s.data))
        view_unchanged(c, ex, s, VIEW)


def snulls(w, mem):
    def go(fn, what, mk):
        c = Case(w, fn, "null %s" % what, mem)
        args, vs = mk(c)
        c.run(*args)
        for ex in c.exits:
            c.require(FAIL, "null %s is rejected with INVALID_ARGUMENT" % what, ex, c.isstatus(ex, "INVALID_ARGUMENT"), "returned %r" % (ex.ret,))
            for v in vs:
                same(c, ex, v)
        if not c.exits:
            c.ob(FAIL, "null %s is rejected" % what, "undecided", "no exit")
    S = lambda c, n="x": c.sym(n)
    B = lambda c, n: c.sym(n, 0, 255)
    O = lambda c, n=8: Ptr(c.out("o", n))
    vw = lambda c, n="view": view(c, n).ptr
    D = lambda c: Ptr(c.struct("ZyanString", "destination"))
    for fn, k in {"Destroy": 0, "Clear": 0, "ShrinkToFit": 0, "ToLowerCase": 0, "ToUpperCase": 0, "Resize": 1, "Reserve": 1, "Truncate": 1, "Delete": 2,
                  "ToLowerCaseEx": 2, "ToUpperCaseEx": 2}.items():
        go("ZyanString" + fn, "string", lambda c, k=k: ([NULLP] + [S(c, "x%d" % j) for j in range(k)], []))
    go("ZyanStringSetChar", "string", lambda c: ([NULLP, S(c), B(c, "v")], []))
    go("ZyanStringGetChar", "string", lambda c: ([NULLP, S(c), O(c, 1)], []))
    go("ZyanStringGetChar", "value", lambda c: ([vw(c), S(c), NULLP], []))
    go("ZyanStringGetCharMutable", "string", lambda c: ([NULLP, S(c), O(c)], []))
    for fn in ("GetCapacity", "GetSize", "GetData"):
        go("ZyanString" + fn, "string", lambda c: ([NULLP, O(c)], []))
    go("ZyanStringInsert", "destination", lambda c: ([NULLP, S(c), vw(c)], []))
    go("ZyanStringInsertEx", "destination", lambda c: ([NULLP, S(c), vw(c), S(c, "y"), S(c, "z")], []))
    go("ZyanStringAppend", "destination", lambda c: ([NULLP, vw(c)], []))
    go("ZyanStringAppendEx", "destination", lambda c: ([NULLP, vw(c), S(c, "y"), S(c, "z")], []))

    def src(mk):
        def f(c):
            d = string(c)
            return mk(c, d), [d]
        return f
    go("ZyanStringInsert", "source", src(lambda c, d: [d.ptr, S(c), NULLP]))
    go("ZyanStringInsertEx", "source", src(lambda c, d: [d.ptr, S(c), NULLP, S(c, "y"), S(c, "z")]))
    go("ZyanStringAppend", "source", src(lambda c, d: [d.ptr, NULLP]))
    go("ZyanStringAppendEx", "source", src(lambda c, d: [d.ptr, NULLP, S(c, "y"), S(c, "z")]))
    go("ZyanStringInitEx", "string", lambda c: ([NULLP, S(c), Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
    go("ZyanStringInitEx", "allocator", lambda c: ([D(c), c.sym("x", 0, MAXB), NULLP, B(c, "g"), B(c, "s")], []))
    buf = lambda c: Ptr(c.region("buf", c.sym("n", 1, MAXB)))
    go("ZyanStringInitCustomBuffer", "string", lambda c: ([NULLP, buf(c), S(c)], []))
    go("ZyanStringInitCustomBuffer", "buffer", lambda c: ([D(c), NULLP, S(c)], []))
    go("ZyanStringDuplicateEx", "source", lambda c: ([D(c), NULLP, S(c), Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
    go("ZyanStringDuplicateEx", "destination", lambda c: ([NULLP, vw(c), c.sym("x", 0, MAXB), Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
    go("ZyanStringDuplicateCustomBuffer", "source", lambda c: ([D(c), NULLP, buf(c), S(c)], []))
    for a, b, nm in ((0, 1, "first source"), (1, 0, "second source")):
        go("ZyanStringConcatEx", nm, lambda c, a=a, b=b: ([D(c), vw(c, "v") if a else NULLP, vw(c, "w") if b else NULLP, S(c), Ptr(allocator(c)), B(c, "g"), B(c, "s")], []))
        go("ZyanStringConcatCustomBuffer", nm, lambda c, a=a, b=b: ([D(c), vw(c, "v") if a else NULLP, vw(c, "w") if b else NULLP, buf(c), S(c)], []))
    for op in ("L", "R"):
        for i in ("", "I"):
            f = "ZyanString%sPos%s" % (op, i)
            go(f, "haystack", lambda c: ([NULLP, vw(c), O(c)], []))
            go(f, "needle", lambda c: ([vw(c), NULLP, O(c)], []))
            go(f, "result", lambda c: ([vw(c, "v"), vw(c, "w"), NULLP], []))
            go(f + "Ex", "haystack", lambda c: ([NULLP, vw(c), O(c), S(c), S(c, "y")], []))
            go(f + "Ex", "needle", lambda c: ([vw(c), NULLP, O(c), S(c), S(c, "y")], []))
            go(f + "Ex", "result", lambda c: ([vw(c, "v"), vw(c, "w"), NULLP, S(c), S(c, "y")], []))
    for f in ("Compare", "CompareI"):
        go("ZyanString" + f, "first string", lambda c: ([NULLP, vw(c), O(c, 4)], []))
        go("ZyanString" + f, "second string", lambda c: ([vw(c), NULLP, O(c, 4)], []))

    def vv(c):
        return Ptr(c.struct("ZyanStringView", "out"))
    for what, a, b in (("view", 0, 1), ("source", 1, 0)):
        go("ZyanStringViewInsideView", what, lambda c, a=a, b=b: ([vv(c) if a else NULLP, vw(c) if b else NULLP], []))
        go("ZyanStringViewInsideViewEx", what, lambda c, a=a, b=b: ([vv(c) if a else NULLP, vw(c) if b else NULLP, S(c), S(c, "y")], []))
        go("ZyanStringViewInsideBufferEx", what, lambda c, a=a, b=b: ([vv(c) if a else NULLP, buf(c) if b else NULLP, S(c)], []))
    go("ZyanStringViewInsideBuffer", "view", lambda c: ([NULLP, buf(c)], []))
    go("ZyanStringViewInsideBuffer", "string", lambda c: ([vv(c), NULLP], []))
    for f in ("GetSize", "GetData"):
        go("ZyanStringView" + f, "view", lambda c: ([NULLP, O(c)], []))
        go("ZyanStringView" + f, "result", lambda c: ([vw(c), NULLP], []))


# ---------------------------------------------------------------- searching, comparing, letter case

def atoms_of(t, region):
    """entry-time bytes of `region` the state talks about: [(offset, atom)]"""
    ids = set()
    for c in t.cons:
        ids |= c.atoms()
    for c in t.diseq:
        ids |= c.atoms()
    return [(ATOMS[a].args[1], V(ATOMS[a])) for a in sorted(ids) if ATOMS[a].kind == "init" and ATOMS[a].args[0] is region and ATOMS[a].args[2] == 1]


def closure(t, regions):
    """equal positions hold equal bytes"""
    for r in regions:
        if t is None:
            return None
        ats = atoms_of(t, r)
        for i in range(len(ats)):
            for j in range(i):
                if t is not None and ats[i][1] != ats[j][1] and t.entails_eq(ats[i][0] - ats[j][0]):
                    t = t.assume_eq(ats[i][1] - ats[j][1])
    return t


def instantiate(t, targets, prune=lambda u: [u]):
    """use what each loop established about the iteration that looked at one of the target positions.
    targets: {region: [offset]}; returns the states that together cover t"""
    states = [t]
    for le in t.events():
        if not isinstance(le, LoopEv):
            continue
        cands = []
        for p in le.paths:
            for c in list(p.conds) + list(p.diseq):
                for a in sorted(deep_atoms(c)):
                    A = ATOMS[a]
                    if A.kind != "init" or A.args[0] not in targets:
                        continue
                    off = A.args[1]
                    co = off.t.get((le.j.id,))
                    if co not in (1, -1) or any(le.j.id in m for m in off.t if m != (le.j.id,)):
                        continue
                    rest = off - V(le.j) * co
                    if any(ATOMS[x].kind in ("loopk", "loopj") and x not in le.count.atoms() and not t_has(t, x) for x in rest.atoms()):
                        continue
                    for x in targets[A.args[0]]:
                        q = (x - rest) * co
                        if not any(q == y or t.entails_eq(q - y) for y in cands):
                            cands.append(q)
        for q in cands:
            nxt = []
            for u in states:
                a, b = u.split(q)
                if b:
                    nxt.append(b)
                if not a:
                    continue
                a, b = a.split(le.count - 1 - q)
                if b:
                    nxt.append(b)
                if not a:
                    continue
                mp = {le.j.id: q}
                for p in le.paths:
                    v = a
                    for c in p.conds:
                        v = v and v.assume(subst(c, mp))
                    for d in p.diseq:
                        v = v and v.assume_ne(subst(d, mp))
                    if v:
                        nxt += prune(v)
            states = nxt
            if len(states) > 3000:
                raise Imprecise("too many cases")
    return states


def t_has(t, a):
    return any(a in c.atoms() for c in t.cons)


def folded(t, x):
    """[(state, lower-cased byte)]"""
    out = []
    if x.const() is not None:
        v = x.const()
        return [(t, K(v + 32 if 65 <= v <= 90 else v))]
    a = t.assume(x - 65)
    a = a and a.assume(K(90) - x)
    if a:
        out.append((a, x + 32))
    for g in (K(64) - x, x - 91):
        b = t.assume(g)
        if b:
            out.append((b, x))
    return out


def byte_eq(t, x, y, ci):
    """states in which the two bytes match"""
    if not ci:
        u = t.assume_eq(x - y)
        return [u] if u else []
    out = []
    for u, a in folded(t, x):
        for v, b in folded(u, y):
            v = v.assume_eq(a - b)
            if v:
                out.append(v)
    return out


def byte_ne(t, x, y, ci):
    if not ci:
        u = t.assume_ne(x - y)
        return [u] if u else []
    out = []
    for u, a in folded(t, x):
        for v, b in folded(u, y):
            v = v.assume_ne(a - b)
            if v:
                out.append(v)
    return out


def no_match(c, ex, h, n, lo, hi, ci, right, what):
    """the needle does not occur at any position p with lo <= p and p + length <= hi"""
    t = ex.st.assume(n.len - 1)
    if t is None:
        return c.ob(FIND, what, "ok", "needle empty")
    if c.w.unroll:
        # refutation: small needles at the first / last positions, every byte assumed to match
        for nl in (1, 2, 3):
            u = t.assume_eq(n.len - nl)
            for d in (range(3) if u else ()):
                for p in (lo + d, hi - nl - d):
                    v = u.assume(p - lo)
                    v = v and v.assume(hi - nl - p)
                    if v is None:
                        continue
                    sts = [v]
                    for q in range(nl):
                        nx = []
                        for x in sts:
                            for y in byte_eq(x, c.initial(x, h.data, p + q), c.initial(x, n.data, K(q)), ci):
                                nx.append(y)
                        sts = nx[:8]
                    for x in sts:
                        r = c.reach(x)
                        if r[0] == "violated":
                            return c.ob(FIND, what, "violated", "a match at %r with a needle of length %d is missed; %s%s" % (p, nl, r[1], c.pathinfo(ex)))
        return True
    p = c.sym("p")
    t = t.assume(p - lo)
    t = t and t.assume(hi - n.len - p)
    if t is None:
        return c.ob(FIND, what, "ok", "empty range")

    def prune(u):
        u = closure(u, (h.data, n.data))
        if u is None:
            return []
        sts = [u]
        hay, ndl = atoms_of(u, h.data), atoms_of(u, n.data)
        for qo, qa in ndl:
            nx = []
            for x in sts:
                if x is None:
                    continue
                m = None
                if x.entails(qo) and x.entails(n.len - 1 - qo):
                    m = next((ha for ho, ha in hay if x.entails_eq(ho - p - qo)), None)
                nx += byte_eq(x, m, qa, ci) if m is not None else [x]
            sts = [x for x in nx if not infeasible(x.cons)]
        # the case split on letters was only needed for the refutation
        return [u] if sts else []
    for tg in ([p], [p + n.len - 1], [p, p + n.len - 1])[1 if right else 0:]:
        left = [x for u in instantiate(t, {h.data: tg}, prune) for x in prune(u)]
        if not left:
            return c.ob(FIND, what, "ok")
    return c.ob(FIND, what, "undecided", "position %r, under %s" % (p, list(left[0].cons)[-12:]))


def is_match(c, ex, h, n, f, ci):
    what = "the reported position is a match"
    q = c.sym("q")
    t = ex.st.assume(q)
    t = t and t.assume(n.len - 1 - q)
    if t is None:
        return c.ob(FIND, what, "ok", "needle empty")
    if c.w.unroll:
        for k in range(c.w.unroll):
            u = ex.st.assume(n.len - 1 - k)
            if u is None:
                continue
            for v in byte_ne(u, c.initial(u, h.data, f + k), c.initial(u, n.data, K(k)), ci):
                r = c.reach(v)
                if r[0] == "violated":
                    return c.ob(FIND, what, "violated", "character %d differs; %s%s" % (k, r[1], c.pathinfo(ex)))
        return True
    for tg in ({n.data: [q]}, {h.data: [f + q]}, {h.data: [f + q], n.data: [q]}):
        left = []
        for u in instantiate(t, tg):
            u = u and closure(u, (h.data, n.data))
            if u is None:
                continue
            ha = next((a for o, a in atoms_of(u, h.data) if u.entails_eq(o - f - q)), None)
            na = next((a for o, a in atoms_of(u, n.data) if u.entails_eq(o - q)), None)
            bad = [u] if ha is None or na is None else byte_ne(u, ha, na, ci)
            left += [x for x in bad if not infeasible(x.cons)]
        if not left:
            return c.ob(FIND, what, "ok")
    return c.ob(FIND, what, "undecided", "character %r, under %s" % (q, list(left[0].cons)[-12:]))


def search(w, right, ci, ext, mem):
    if w.unroll >= 3:
        # refutation: short strings of a fixed length searched completely, so that every loop ends by itself
        for hl, nl in ((3, 2), (2, 1), (4, 3)):
            search_case(w, right, ci, ext, mem, (hl, nl))
    search_case(w, right, ci, ext, mem, None)


def search_case(w, right, ci, ext, mem, small):
    c = Case(w, "ZyanString%sPos%s%s" % ("R" if right else "L", "I" if ci else "", "Ex" if ext else ""), "any", mem)
    h, n = (view(c, x, length=small and small[i]) for i, x in enumerate(("haystack", "needle")))
    out = c.out("found")
    if small:
        c.I.unroll_width = 1500
    if ext:
        i, k = (c.sym("index"), c.sym("count")) if not small else (K(small[0] if right else 0), K(small[0]))
        c.run(h.ptr, n.ptr, Ptr(out), i, k)
    else:
        i, k = (h.len if right else ZERO), h.len
        c.run(h.ptr, n.ptr, Ptr(out))
    for ex in c.exits:
        st = ex.st
        view_unchanged(c, ex, h, FIND, "haystack")
        view_unchanged(c, ex, n, FIND, "needle")
        valid = [h.len - i, i - k if right else h.len - i - k]
        lo, hi = (i - k, i) if right else (i, i + k)
        if c.isstatus(ex, "OUT_OF_RANGE"):
            t = st
            for g in valid:
                t = t and t.assume(g)
            c.require(FAIL, "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
            continue
        for g in valid:
            c.prove(FAIL, "OUT_OF_RANGE is returned whenever it applies", ex, g)
        f = c.outval(ex, out)
        if c.isstatus(ex, "TRUE"):
            if not isinstance(f, P):
                c.require(FIND, "a position is reported", ex, False, repr(f))
                continue
            c.prove(FIND, "an empty needle is never found", ex, n.len - 1)
            sts = instantiate(st, {n.data: [n.len - 1, ZERO]}) if not w.unroll else [st]
            for u in sts:
                c.prove(FIND, "a match lies inside the searched range", Exit(u, ex.ret), f - lo)
                c.prove(FIND, "a match lies inside the searched range", Exit(u, ex.ret), hi - f - n.len)
            if not sts:
                continue
            is_match(c, ex, h, n, f, ci)
            if right:
                no_match(c, ex, h, n, f + 1, hi, ci, right, "no match lies behind the reported one")
            else:
                no_match(c, ex, h, n, lo, f - 1 + n.len, ci, right, "no match lies before the reported one")
        elif c.isstatus(ex, "FALSE"):
            c.prove_eq(FIND, "an unsuccessful search reports -1", ex, f, K(U64))
            no_match(c, ex, h, n, lo, hi, ci, right, "an unsuccessful search passed no match")
        else:
            c.require(FIND, "returns TRUE, FALSE or OUT_OF_RANGE", ex, False, repr(ex.ret))


def compare(w, ci, mem):
    c = Case(w, "ZyanStringCompare" + ("I" if ci else ""), "any", mem)
    a, b = view(c, "s1"), view(c, "s2")
    out = c.out("result", 4)
    c.run(a.ptr, b.ptr, Ptr(out))
    for ex in c.exits:
        view_unchanged(c, ex, a, CMP, "first string")
        view_unchanged(c, ex, b, CMP, "second string")
        r = c.outval(ex, out)
        if not isinstance(r, P):
            c.require(CMP, "a result is reported", ex, False, repr(r))
            continue
        if c.isstatus(ex, "TRUE"):
            c.prove_eq(CMP, "equal strings compare as 0", ex, r, ZERO)
            c.prove_eq(CMP, "equal strings have equal length", ex, a.len, b.len)
            prefix(c, ex, a, b, a.len, ci, "equal strings have equal characters")
        elif c.isstatus(ex, "FALSE"):
            for t, less in ((ex.st.assume(r - (1 << 31)), True), (ex.st.assume(K((1 << 31) - 1) - r), False)):
                if t is None:
                    continue
                if not less:
                    c.prove(CMP, "different strings do not compare as 0", Exit(t, ex.ret), r - 1)
                order(c, Exit(t, ex.ret), a, b, less, ci)
        else:
            c.require(CMP, "returns TRUE or FALSE", ex, False, repr(ex.ret))


def prefix(c, ex, a, b, n, ci, what):
    """the first n characters match"""
    if c.w.unroll:
        for k in range(c.w.unroll):
            u = ex.st.assume(n - 1 - k)
            if u is None:
                continue
            for v in byte_ne(u, c.initial(u, a.data, K(k)), c.initial(u, b.data, K(k)), ci):
                r = c.reach(v)
                if r[0] == "violated":
                    return c.ob(CMP, what, "violated", "character %d differs; %s%s" % (k, r[1], c.pathinfo(ex)))
        return True
    q = c.sym("q")
    t = ex.st.assume(q)
    t = t and t.assume(n - 1 - q)
    if t is None:
        return c.ob(CMP, what, "ok", "empty")
    for u in instantiate(t, {a.data: [q], b.data: [q]}):
        u = closure(u, (a.data, b.data))
        if u is None:
            continue
        x = next((v for o, v in atoms_of(u, a.data) if u.entails_eq(o - q)), None)
        y = next((v for o, v in atoms_of(u, b.data) if u.entails_eq(o - q)), None)
        for z in ([u] if x is None or y is None else byte_ne(u, x, y, ci)):
            if not infeasible(z.cons):
                return c.ob(CMP, what, "undecided", "character %r, under %s" % (q, list(z.cons)[-12:]))
    return c.ob(CMP, what, "ok")


def order(c, ex, a, b, less, ci):
    """negative result: at the first difference the first string is smaller, or it ends there (and vice versa);
    the order of characters outside ASCII is left open"""
    what = "the sign follows the first different character, a prefix comes first"
    if c.w.unroll:
        # enumerate the position of the first difference
        for k in range(c.w.unroll + 1):
            sts = [ex.st]
            for q in range(k):
                nx = []
                for u in sts:
                    u = u.assume(a.len - 1 - q)
                    u = u and u.assume(b.len - 1 - q)
                    if u:
                        nx += byte_eq(u, c.initial(u, a.data, K(q)), c.initial(u, b.data, K(q)), ci)
                sts = nx[:12]
            for u in sts:
                bad = []
                ea, eb = u.assume_eq(a.len - k), u.assume_eq(b.len - k)
                if ea:
                    if not less:
                        bad.append(ea)
                    elif ea.assume_eq(b.len - k):
                        bad.append(ea.assume_eq(b.len - k))
                if eb:
                    if less:
                        bad.append(eb)
                v = u.assume(a.len - 1 - k)
                v = v and v.assume(b.len - 1 - k)
                if v:
                    x, y = c.initial(v, a.data, K(k)), c.initial(v, b.data, K(k))
                    v = v.assume(K(127) - x)
                    v = v and v.assume(K(127) - y)
                    for f, xx in (folded(v, x) if ci else [(v, x)]) if v else ():
                        for g, yy in (folded(f, y) if ci else [(f, y)]):
                            g = g.assume(xx - yy - 1 if less else yy - xx - 1)
                            if g:
                                bad.append(g)
                for z in bad:
                    r = c.reach(z)
                    if r[0] == "violated":
                        return c.ob(CMP, what, "violated", "first difference at %d; %s%s" % (k, r[1], c.pathinfo(ex)))
        return True
    # the exit knows a position: a length reached, or the byte the loop stopped at
    t = ex.st
    pos = [(a.len, None, None), (b.len, None, None)]
    bs = atoms_of(t, b.data)
    pos += [(o, x, y) for o, x in atoms_of(t, a.data) for o2, y in bs if t.entails_eq(o - o2)]
    for k, x, y in pos:
        if not (t.entails(a.len - k) and t.entails(b.len - k)):
            continue
        if x is None:
            if not (t.entails(b.len - a.len - 1) if less else t.entails(a.len - b.len - 1)):
                continue
        else:
            if not (t.entails(a.len - 1 - k) and t.entails(b.len - 1 - k)):
                continue
            ok = True
            v = t.assume(K(127) - x)
            v = v and v.assume(K(127) - y)
            for f, xx in (folded(v, x) if ci else [(v, x)]) if v else ():
                for g, yy in (folded(f, y) if ci else [(f, y)]):
                    if not g.entails(yy - xx - 1 if less else xx - yy - 1):
                        ok = False
            if v is None:
                for z in byte_eq(t, x, y, ci):
                    if not infeasible(z.cons):
                        ok = False
            if not ok:
                continue
        return c.ob(CMP, what, "ok") and prefix(c, ex, a, b, k, ci, "the characters before the first difference match")
    return c.ob(CMP, what, "undecided", "no position of the first difference found%s" % c.pathinfo(ex))


def lettercase(w, lower, ext, dyn, mem):
    c = Case(w, "ZyanStringTo%sCase%s" % ("Lower" if lower else "Upper", "Ex" if ext else ""), "dynamic" if dyn else "fixed buffer", mem)
    s = string(c, "string", dyn)
    if ext:
        i, k = c.sym("index"), c.sym("count")
        c.run(s.ptr, i, k)
    else:
        i, k = ZERO, s.len
        c.run(s.ptr)
    a, z, d = (65, 90, 32) if lower else (97, 122, -32)
    for ex in c.exits:
        r = sinv(c, ex, s)
        valid = [s.len - i, s.len - i - k]
        if c.isstatus(ex, "OUT_OF_RANGE"):
            t = ex.st
            for g in valid:
                t = t and t.assume(g)
            c.require(FAIL, "OUT_OF_RANGE is returned only when it applies", Exit(t, ex.ret) if t else ex, t is None)
            same(c, ex, s)
            continue
        c.require(FAIL, "fails only for its documented reasons", ex, c.success(ex) is True, repr(ex.ret))
        for g in valid:
            c.prove(FAIL, "OUT_OF_RANGE is returned whenever it applies", ex, g)
        if not r:
            continue
        c.prove_eq(CMP, "the length is unchanged", ex, r[0], s.len + 1)
        c.prove_eq(CMP, "the storage is unchanged", ex, r[2], Ptr(s.data))
        c.seq(CMP, "characters outside the range are unchanged", ex, s.data, ZERO, i, s.data, ZERO)
        c.seq(CMP, "characters outside the range are unchanged", ex, s.data, i + k, s.len + 1, s.data, ZERO)
        what = "letters in the range change case, everything else stays"
        p = c.sym("p")
        if c.w.unroll:
            ps = [i + x for x in range(c.w.unroll)]
        else:
            ps = [p]
        for p in ps:
            t = ex.st.assume(p - i)
            t = t and t.assume(i + k - 1 - p)
            if t is None:
                continue
            x = c.initial(t, s.data, p)
            for goal, want in (((x - a, K(z) - x), x + d), ((K(a - 1) - x,), x), ((x - z - 1,), x)):
                u = t
                for g in goal:
                    u = u and u.assume(g)
                if u is None:
                    continue
                for v, got in c.I.read(u, s.data, p, 1, False):
                    r2 = c.eqv(v, got, want)
                    c.ob(CMP, what, r2[0], r2[1] + (c.pathinfo(ex) if r2[0] != "ok" else ""))


SERVES = ["S0[1-7]", "M01"]


def _long(n):
    a, i = b"a" * n, b"aB" * (n // 2)
    up = i.swapcase()
    cases = (
        ("ZyanStringCompare", a + b"b", a + b"c", False, -1), ("ZyanStringCompare", a + b"c", a + b"b", False, 1),
        ("ZyanStringCompare", a, a, True, 0), ("ZyanStringCompare", a, a + b"b", False, -1),
        ("ZyanStringCompareI", i + b"b", up + b"C", False, -1), ("ZyanStringCompareI", i, up, True, 0), ("ZyanStringCompareI", i + b"b", up, False, 1),
        ("ZyanStringLPos", a + b"bc", b"bc", True, n), ("ZyanStringLPosI", a + b"bc", b"BC", True, n), ("ZyanStringLPos", a, b"b", False, -1),
        ("ZyanStringRPos", b"bc" + a, b"bc", True, 0), ("ZyanStringRPosI", b"bC" + a, b"Bc", True, 0), ("ZyanStringRPos", a + b"bc", b"bc", True, n),
        ("ZyanStringLPos", b"x" + a + b"y", a, True, 1), ("ZyanStringLPos", a, a[1:] + b"b", False, -1), ("ZyanStringRPos", b"x" + a, a, True, 1),
    )
    return [cases[k] for k in (0, 2, 5)] if n > 1000 else cases


def long_(w, mem, find, part, parts):
    """what only shows when there is much to count: strings of given characters, interpreted without summarising"""
    if w.unroll:
        return
    for k, (fn, a, b, found, res) in enumerate(x for n in (300, 65540) for x in _long(n) if ("Pos" in x[0]) == find):
        if k % parts != part:
            continue
        c = Case(w, fn, "%d and %d characters #%d" % (len(a), len(b), k), mem)
        c.I.unroll_limit, c.I.BUDGET = 70000, 10 ** 6
        x, y = view(c, "first", length=len(a)), view(c, "second", length=len(b))
        x.data.bytes, y.data.bytes = a, b
        out = c.out("result", 8 if find else 4)
        c.run(x.ptr, y.ptr, Ptr(out))
        props = FIND if find else CMP
        for ex in c.exits:
            r = c.outval(ex, out)
            c.require(props, "the status is the one for these strings", ex, c.isstatus(ex, "TRUE" if found else "FALSE"), repr(ex.ret))
            if isinstance(r, P):
                c.prove_eq(props, "the result is the one for these strings", ex, r, K(res % (1 << (64 if find else 32))))
            else:
                c.require(props, "a result is reported", ex, False, repr(r))


def tasks(prop=None):
    mem = MEM
    T = []
    for dyn in (True, False):
        T += [(insert, dyn, False, mem), (insert, dyn, True, mem), (append, dyn, False, False, mem), (append, dyn, True, False, mem), (append, dyn, False, True, mem),
              (append, dyn, True, True, mem), (delete, dyn, False, mem), (delete, dyn, True, mem), (destroy_, dyn, mem)]
        T += [(resize_, dyn, op, mem) for op in ("Resize", "Reserve", "ShrinkToFit", "Clear")]
    T += [(build, op, kind, mem) for op in ("Init", "Duplicate", "Concat") for kind in ("ex", "buffer", "default")]
    T += [(search, r, ci, e, mem) for r in (False, True) for ci in (False, True) for e in (False, True)]
    T += [(compare, ci, mem) for ci in (False, True)]
    T += [(lettercase, lo, e, dyn, mem) for lo in (True, False) for e in (False, True) for dyn in (True, False)]
    T += [(chars, mem), (info, mem), (views, mem), (snulls, mem)]
    if prop in (None, "S06"):
        T += [(long_, mem, True, 0, 1)]
    if prop in (None, "S07"):
        T += [(long_, mem, False, k, 7) for k in range(7)]
    return T
