"""Contracts of the bitset component."""
from .world import *
from .contracts_vector import *
from .contracts_string import instantiate

MEM = ("B01",)
INV, FAIL, BIT, LOG = ("B01",), ("B01",), ("B02",), ("B03",)


class Bs:
    pass


def bitset(c, name="bitset", dyn=True, k=None):
    """a valid bitset: ceil(size / 8) bytes; k: number of bits used in the last byte (0: none or all), None: any"""
    s = Bs()
    w = c.w
    s.reg = c.struct("ZyanBitset", name)
    base = w.lay.off("ZyanBitset", "bits")
    s.v = vector(c, name + ".bits", dyn, es=ONE, base=base, holder=s.reg, destructor=False)
    s.m, s.data, s.dyn, s.k = s.v.size, s.v.data, dyn, k
    if k is None:
        s.size = c.sym(name + ".size", 0, MAXB * 8)
        c.assume(s.m * 8 - s.size)
        c.assume(s.size - s.m * 8 + 7)
        s.q = None
    else:
        s.q = s.m - (1 if k else 0)
        if k:
            c.assume(s.m - 1)
        s.size = s.q * 8 + k
    c.set(s.reg, "ZyanBitset", "size", s.size)
    s.ptr = Ptr(s.reg)
    return s


def bsize(c, ex, s):
    return c.cell(ex, s.reg, "ZyanBitset", "size")


def binv(c, ex, s, newsize=None, props=INV):
    """size in bits, size in bytes, capacity and storage agree"""
    r = inv(c, ex, s.v, props, "bitset storage")
    n = bsize(c, ex, s)
    if not isinstance(n, P):
        c.require(props, "the size is known", ex, False, repr(n))
        return None
    if newsize is not None:
        c.prove_eq(props, "the number of bits changes as documented", ex, n, newsize)
        n = newsize
    if r:
        c.prove(props, "there is a byte for every bit", ex, r[0] * 8 - n)
        c.prove(props, "no more bytes are in use than the bits need", ex, n - r[0] * 8 + 7)
    return r


def same(c, ex, s, props=FAIL, what="bitset"):
    c.prove_eq(props, "%s size is unchanged" % what, ex, bsize(c, ex, s), s.size)
    unchanged(c, ex, s.v, props, what)


def bits_of(c, st, v):
    """bit expressions of a byte value, LSB first"""
    if not isinstance(v, P):
        return None, None
    return c.I.bits(st, v, 8)


def bitorder(w):
    """position (inside its byte) of the k-th bit of a byte, as observed through ZyanBitsetTest"""
    if getattr(w, "bitorder", None) is not None:
        return w.bitorder
    pos = []
    unroll, w.unroll = w.unroll, 0
    for k in range(8):
        c = Case(w, "ZyanBitsetTest", "bit order", MEM)
        c.ob = lambda *a, **kw: True
        s = bitset(c, "bitset")
        q = c.sym("q", 0, MAXB)
        c.assume(s.size - q * 8 - k - 1)
        c.run(s.ptr, q * 8 + k)
        cand = set(range(8))
        for ex in c.exits:
            T, F = c.isstatus(ex, "TRUE"), c.isstatus(ex, "FALSE")
            st, bl = bits_of(c, ex.st, c.initial(ex.st, s.data, q))
            if st is None or not (T or F):
                continue
            cand &= set(j for j in range(8) if st.entails_eq(bl[j] - (1 if T else 0)))
        pos.append(min(cand) if len(cand) == 1 else None)
    w.unroll = unroll
    if None in pos or len(set(pos)) != 8:
        pos = [7 - k for k in range(8)]
    w.bitorder = pos
    return pos


def byte_cases(c, ex, reg, off, old_reg=None, old_off=None):
    """[(state, new bits, old bits)] of one byte"""
    st = ex.st if isinstance(ex, Exit) else ex
    out = []
    for u, v in c.I.read(st, reg, off, 1, False):
        u2, nb = bits_of(c, u, v)
        if u2 is None:
            if nb is None and not isinstance(v, P):
                out.append((u, None, None))
            continue
        u3, ob = bits_of(c, u2, c.initial(u2, old_reg or reg, off if old_off is None else old_off))
        if u3 is not None:
            out.append((u3, nb, ob))
    return out


def bits_eq(c, ex, props, what, reg, off, want, old_reg=None, old_off=None):
    """bits of the byte at off: want(j, old bits) -> expected expression or None"""
    for u, nb, ob in byte_cases(c, ex, reg, off, old_reg, old_off):
        if nb is None:
            c.ob(props, what, "undecided", "byte value is not known")
            continue
        e = Exit(u, getattr(ex, "ret", None))
        for j in range(8):
            x = want(j, ob)
            if x is not None:
                c.prove_eq(props, what, e, nb[j], x)


def at(c, ex, q, k, s):
    """the part of an exit where index 8q+k is valid"""
    st = ex.st.assume(s.size - q * 8 - k - 1)
    return st


def range_status(c, ex, s, idx, props=BIT):
    if c.isstatus(ex, "OUT_OF_RANGE"):
        c.prove(props, "OUT_OF_RANGE is returned only when it applies", ex, idx - s.size)
        return False
    c.prove(props, "OUT_OF_RANGE is returned whenever it applies", ex, s.size - 1 - idx)
    return True


def access(w, fn, k, mem):
    """one bit is changed (Set, Reset, Toggle, Assign) or tested"""
    pos = bitorder(w)
    c = Case(w, fn, "bit %d of a byte" % k, mem)
    s = bitset(c)
    q = c.sym("byte", 0, 1 << 60)
    idx = q * 8 + k
    if fn == "ZyanBitsetAssign":
        val = c.sym("value", 0, 255)
        c.run(s.ptr, idx, val)
    else:
        c.run(s.ptr, idx)
    for ex in c.exits:
        if not range_status(c, ex, s, idx):
            same(c, ex, s)
            continue
        r = binv(c, ex, s, s.size)
        if fn == "ZyanBitsetTest":
            same(c, ex, s)
            for u, nb, ob in byte_cases(c, ex, s.data, q):
                c.require(BIT, "testing yields TRUE or FALSE", Exit(u, ex.ret), c.isstatus(ex, "TRUE") or c.isstatus(ex, "FALSE"), repr(ex.ret))
                c.prove_eq(BIT, "testing reports the value of the addressed bit", Exit(u, ex.ret), ob[pos[k]], K(1 if c.isstatus(ex, "TRUE") else 0))
            continue
        c.require(BIT, "changing a valid bit succeeds", ex, c.success(ex) is True, repr(ex.ret))
        if not r:
            continue
        st = ex.st

        def want(j, ob):
            if j != pos[k]:
                return ob[j]
            if fn == "ZyanBitsetToggle":
                return ONE - ob[j]
            if fn == "ZyanBitsetAssign":
                return new
            return K(1 if fn == "ZyanBitsetSet" else 0)
        parts = [st]
        if fn == "ZyanBitsetAssign":
            parts = [(t, x) for t, x in zip(st.split_eq(val), (ZERO, ONE)) if t]
        else:
            parts = [(st, None)]
        for t, new in parts:
            e = Exit(t, ex.ret)
            bits_eq(c, e, BIT, "exactly the addressed bit takes the new value", r[2].r, q, want)
            c.seq(BIT, "the bits of all other bytes keep their value", e, r[2].r, ZERO, q, s.data, ZERO)
            c.seq(BIT, "the bits of all other bytes keep their value", e, r[2].r, q + 1, s.m, s.data, ZERO)


def ends(w, fn, k, mem):
    """ZyanBitsetTestMSB / TestLSB"""
    pos = bitorder(w)
    c = Case(w, fn, "%d bits in the last byte" % (k or 8), mem)
    s = bitset(c, k=k)
    c.run(s.ptr)
    msb = fn.endswith("MSB")
    for ex in c.exits:
        same(c, ex, s)
        if c.isstatus(ex, "OUT_OF_RANGE"):
            c.prove(BIT, "OUT_OF_RANGE is returned only for an empty bitset", ex, -s.size)
            continue
        c.prove(BIT, "OUT_OF_RANGE is returned for an empty bitset", ex, s.size - 1)
        st = ex.st.assume(s.size - 1)
        if st is None:
            continue
        off = s.m - 1 if msb else ZERO
        bit = (k + 7) % 8 if msb else 0
        for u, nb, ob in byte_cases(c, Exit(st, ex.ret), s.data, off):
            c.require(BIT, "testing yields TRUE or FALSE", Exit(u, ex.ret), c.isstatus(ex, "TRUE") or c.isstatus(ex, "FALSE"), repr(ex.ret))
            c.prove_eq(BIT, "the last (first) bit is tested", Exit(u, ex.ret), ob[pos[bit]], K(1 if c.isstatus(ex, "TRUE") else 0))


def each_bit(c, ex, s, props, what, want, n=None):
    """for every used bit: want(bit position, old bits at that byte, byte offset); full bytes and the last byte"""
    st = ex.st
    pos = c.w.bitorder
    p = c.sym("p")
    t = st.assume(s.q - 1 - p)
    if t is not None:
        bits_eq(c, Exit(t, ex.ret), props, what, s.data, p, lambda j, ob: want(t, j, ob, p))
    if s.k:
        used = [pos[i] for i in range(s.k)]
        bits_eq(c, ex, props, what, s.data, s.q, lambda j, ob: want(st, j, ob, s.q) if j in used else None)


def whole(w, fn, k, mem):
    """SetAll, ResetAll, Flip"""
    bitorder(w)
    c = Case(w, fn, "%d bits in the last byte" % k, mem)
    s = bitset(c, k=k)
    c.run(s.ptr)
    f = {"ZyanBitsetSetAll": lambda t, j, ob, p: ONE, "ZyanBitsetResetAll": lambda t, j, ob, p: ZERO, "ZyanBitsetFlip": lambda t, j, ob, p: ONE - ob[j]}[fn]
    for ex in c.exits:
        c.require(LOG, "never fails on a valid bitset", ex, c.success(ex) is True, repr(ex.ret))
        if binv(c, ex, s, s.size):
            each_bit(c, ex, s, LOG, "every bit takes the documented value", f)


def combine(w, fn, ka, kb, mem):
    """AND, OR, XOR of two bitsets"""
    pos = bitorder(w)
    c = Case(w, fn, "%d and %d bits in the last bytes" % (ka, kb), mem)
    a = bitset(c, "destination", k=ka)
    b = bitset(c, "source", k=kb)
    c.run(a.ptr, b.ptr)
    op = fn[-3:].strip("t").lower()
    op = {"and": "and", "or": "or", "xor": "xor"}[op]
    for ex in c.exits:
        c.require(LOG, "never fails on valid bitsets", ex, c.success(ex) is True, repr(ex.ret))
        same(c, ex, b, LOG, "source")
        if not binv(c, ex, a, a.size):
            continue
        p = c.sym("p")

        def check(t, used):
            if t is None:
                return
            for u, nb, ob in byte_cases(c, Exit(t, ex.ret), a.data, p):
                u, sb = bits_of(c, u, c.initial(u, b.data, p))
                if u is None:
                    continue
                for j in used:
                    if nb is None:
                        c.ob(LOG, "every common bit is combined", "undecided", "byte value is not known")
                        continue
                    v, x = c.I.bitop(u, op, ob[j], sb[j])
                    if v is not None:
                        c.prove_eq(LOG, "every common bit is combined", Exit(v, ex.ret), nb[j], x)
        t = ex.st.assume(a.q - 1 - p)
        full = t and t.assume(b.q - 1 - p)
        check(full, range(8))
        if ka:
            t = ex.st.assume_eq(p - a.q)
            check(t and t.assume(b.q - 1 - p), [pos[i] for i in range(ka)])
            t = t and t.assume_eq(p - b.q)
            check(t, [pos[i] for i in range(min(ka, kb))])
        if kb:
            t = ex.st.assume_eq(p - b.q)
            check(t and t.assume(a.q - 1 - p), [pos[i] for i in range(kb)])


def byte_op(w, alias, mem):
    """the user-supplied operation is applied to every common byte, in order, until it fails"""
    c = Case(w, "ZyanBitsetPerformByteOperation", "same bitset twice" if alias else "any", mem)
    a = bitset(c, "destination")
    b = a if alias else bitset(c, "source")

    def m(I, st, inst, args):
        out = []
        x, y = args
        for t, r, o in I.addr(st, x, ONE, inst, True, "byte passed to the operation"):
            I.addr(t, y, ONE, inst, False, "byte passed to the operation")
            t = t.fork()
            I.range_write(t, "opaque", r, o, ONE, ZERO, ("combined", y.o if isinstance(y, Ptr) else ZERO))
            I.emit(t, "cb", "op", args, K(c.w.ST["SUCCESS"]), inst)
            out.append((t, passing(I, "op")))
            f = t.fork()
            f.ev = st.ev
            err = V(term("operr", I.callid(), 1 << 31, (1 << 32) - 1))
            I.emit(f, "cb", "op", args, err, inst)
            out.append((f, err))
        return out
    fn = c.fnptr("operation", m)
    c.run(a.ptr, b.ptr, Ptr(fn))
    for ex in c.exits:
        binv(c, ex, a, a.size)
        if not alias:
            same(c, ex, b, LOG, "source")
        evs = flat_events(ex.st.events(), lambda e: e.kind == "cb" and e.name == "op")
        failed = [e for e, ctx in evs if not ctx and e.ret.const() is None]
        loops = [(e, ctx) for e, ctx in evs if ctx]
        for e, ctx in evs:
            ok = isinstance(e.args[0], Ptr) and e.args[0].r is a.data and isinstance(e.args[1], Ptr) and e.args[1].r is b.data
            if c.require(LOG, "the operation is given a byte of each bitset", ex, ok, repr(e.args)):
                c.prove_eq(LOG, "the operation is given corresponding bytes", ex, e.args[0].o, e.args[1].o)
        if c.w.unroll:
            n = K(len([1 for e, ctx in evs if e.ret.const() is not None]))
            pos_ = [e.args[0].o for e, ctx in evs if isinstance(e.args[0], Ptr)]
            for i, o in enumerate(pos_):
                c.prove_eq(LOG, "every common byte is visited in order", ex, o, K(i))
        else:
            if len(loops) > 1 or any(len(ctx) > 1 or len(ctx[0][0].paths) != 1 for e, ctx in loops):
                c.ob(LOG, "every common byte is visited once", "undecided", "loop structure")
                continue
            n = ZERO
            if loops:
                e, ctx = loops[0]
                le = ctx[0][0]
                n = le.count
                c.prove_eq(LOG, "every common byte is visited in order", ex, e.args[0].o, V(le.j))
        if failed:
            c.prove_eq(LOG, "an error of the operation is passed on", ex, ex.ret, failed[-1].ret)
            c.prove_eq(LOG, "the operation stops at the first error", ex, failed[-1].args[0].o, n)
        else:
            c.require(LOG, "succeeds if every operation does", ex, c.success(ex) is True, repr(ex.ret))
            c.prove(LOG, "no byte beyond the smaller bitset is visited", ex, a.m - n)
            c.prove(LOG, "no byte beyond the smaller bitset is visited", ex, b.m - n)
            t = ex.st.assume(a.m - n - 1)
            t = t and t.assume(b.m - n - 1)
            c.require(LOG, "every common byte is visited", Exit(t, ex.ret) if t else ex, t is None)


def push(w, dyn, k, mem):
    pos = bitorder(w)
    c = Case(w, "ZyanBitsetPush", ("dynamic" if dyn else "fixed buffer") + ", %d bits in the last byte" % k, mem)
    s = bitset(c, dyn=dyn, k=k)
    val = c.sym("value", 0, 255)
    c.run(s.ptr, val)
    for ex in c.exits:
        if c.success(ex):
            r = binv(c, ex, s, s.size + 1)
            if not r:
                continue
            c.seq(BIT, "existing bits keep their value", ex, r[2].r, ZERO, s.q, s.data, ZERO)
            used = [pos[i] for i in range(k)]
            for t, new in zip(ex.st.split_eq(val), (ZERO, ONE)):
                if t is None:
                    continue
                e = Exit(t, ex.ret)
                for u, v in c.I.read(t, r[2].r, s.q, 1, False):
                    u2, nb = bits_of(c, u, v)
                    if nb is None:
                        if u2 is None and isinstance(v, P):
                            continue
                        c.ob(BIT, "the new bit has the given value", "undecided", repr(v))
                        continue
                    c.prove_eq(BIT, "the new bit has the given value", Exit(u2, ex.ret), nb[pos[k]], new)
                    if k:
                        u2, ob = bits_of(c, u2, c.initial(u2, s.data, s.q))
                        if u2 is not None:
                            for j in used:
                                c.prove_eq(BIT, "existing bits keep their value", Exit(u2, ex.ret), nb[j], ob[j])
        else:
            binv(c, ex, s)
            growth_fail_ok(c, ex, s.v, s.m + 1, FAIL)
            c.require(FAIL, "adding a bit fails only if a new byte is needed", ex, k == 0, repr(ex.ret))
            same(c, ex, s)


def pop(w, dyn, k, mem):
    pos = bitorder(w)
    c = Case(w, "ZyanBitsetPop", ("dynamic" if dyn else "fixed buffer") + ", %d bits in the last byte" % k, mem)
    s = bitset(c, dyn=dyn, k=k)
    c.run(s.ptr)
    for ex in c.exits:
        if c.success(ex):
            c.prove(FAIL, "nothing is removed from an empty bitset", ex, s.size - 1)
            r = binv(c, ex, s, s.size - 1)
            if not r:
                continue
            n = s.m - (1 if k != 0 else 1)
            c.seq(BIT, "the remaining bits keep their value", ex, r[2].r, ZERO, n, s.data, ZERO)
            left = (k + 7) % 8
            if left:
                used = [pos[i] for i in range(left)]
                bits_eq(c, ex, BIT, "the remaining bits keep their value", r[2].r, s.m - 1, lambda j, ob: ob[j] if j in used else None, s.data, s.m - 1)
        else:
            binv(c, ex, s)
            c.prove(FAIL, "removing a bit fails only on an empty bitset", ex, -s.size)
            same(c, ex, s)


def resizing(w, fn, dyn, mem):
    """Clear, Reserve, ShrinkToFit"""
    c = Case(w, fn, "dynamic" if dyn else "fixed buffer", mem)
    s = bitset(c, dyn=dyn)
    args = [s.ptr]
    if fn == "ZyanBitsetReserve":
        n = c.sym("count")
        args.append(n)
    c.run(*args)
    for ex in c.exits:
        if c.success(ex):
            r = binv(c, ex, s, ZERO if fn == "ZyanBitsetClear" else s.size)
            if not r:
                continue
            if fn != "ZyanBitsetClear":
                c.seq(BIT, "all bits keep their value", ex, r[2].r, ZERO, s.m, s.data, ZERO)
            if fn == "ZyanBitsetReserve":
                c.prove(INV, "the reserved number of bits fits without another allocation", ex, r[1] * 8 - n)
                c.prove(INV, "reserving never lowers the capacity", ex, r[1] - s.v.cap)
            if fn == "ZyanBitsetShrinkToFit" and dyn:
                for t, want in zip(ex.st.split(s.m - 1), (s.m, ONE)):
                    if t is not None:
                        c.prove_eq(INV, "shrinking makes the capacity match the size", Exit(t, ex.ret), r[1], want)
        else:
            binv(c, ex, s)
            c.require(FAIL, "clearing never fails", ex, fn != "ZyanBitsetClear", repr(ex.ret))
            if dyn and allocfail(ex) is not None:
                c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, allocfail(ex).ret)
            elif fn == "ZyanBitsetReserve":
                c.require(FAIL, "a fixed buffer is reported as INSUFFICIENT_BUFFER_SIZE", ex, not dyn and c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"), repr(ex.ret))
                c.prove(FAIL, "reserving fails only if the buffer is too small", ex, n - s.v.cap * 8 - 1)
            else:
                c.require(FAIL, "fails only through the allocator", ex, False, repr(ex.ret))
            same(c, ex, s)


def getters(w, mem):
    for fn, f in (("ZyanBitsetGetSize", lambda s: s.size), ("ZyanBitsetGetSizeBytes", lambda s: s.m),
                  ("ZyanBitsetGetCapacity", lambda s: s.v.cap * 8), ("ZyanBitsetGetCapacityBytes", lambda s: s.v.cap)):
        c = Case(w, fn, "any", mem)
        s = bitset(c)
        out = c.out("result")
        c.run(s.ptr, Ptr(out))
        for ex in c.exits:
            c.require(INV, "a valid bitset has sizes", ex, c.success(ex) is True, repr(ex.ret))
            c.prove_eq(INV, "the documented number is reported", ex, c.outval(ex, out), f(s))
            same(c, ex, s)


def init(w, fn, mem):
    c = Case(w, fn, "any", mem)
    reg = c.struct("ZyanBitset", "bitset")
    base = w.lay.off("ZyanBitset", "bits")
    n = c.sym("count")
    buf = None
    if fn == "ZyanBitsetInitBuffer":
        cap = c.sym("buffer_capacity", 0, MAXB)
        buf = c.region("buffer", cap, "array", kind="buffer", maybe_null=True)
        c.run(Ptr(reg), n, Ptr(buf), cap)
    elif fn == "ZyanBitsetInitEx":
        al = allocator(c)
        gf, sh = c.sym("growth_factor", 0, 255), c.sym("shrink_threshold", 0, 255)
        c.run(Ptr(reg), n, Ptr(al), gf, sh)
    else:
        c.run(Ptr(reg), n)
    for ex in c.exits:
        st = ex.st
        blocks = [e.x.r for e in st.events() if isinstance(e, Ev) and e.kind == "alloc" and e.name == "allocate" and e.x is not None]
        blocks += [e.ret.r for e in st.events() if isinstance(e, Ev) and e.kind == "libc" and e.name in ("malloc", "calloc", "realloc")
                   and isinstance(e.ret, Ptr) and e.ret.r is not NULLR]
        live = [b for b in blocks if b.id not in st.freed]
        if c.success(ex):
            m, cp, data = [c.cell(ex, reg, "ZyanVector", f, base) for f in ("size", "capacity", "data")]
            size = c.cell(ex, reg, "ZyanBitset", "size")
            if not (isinstance(m, P) and isinstance(cp, P) and isinstance(data, Ptr) and isinstance(size, P)):
                c.require(INV, "the bitset is initialised", ex, False, repr((size, m, cp, data)))
                continue
            c.prove_eq(INV, "the bitset has the requested number of bits", ex, size, n)
            c.prove(INV, "there is a byte for every bit", ex, m * 8 - n)
            c.prove(INV, "no more bytes are in use than the bits need", ex, n - m * 8 + 7)
            c.prove(INV, "bytes in use never exceed the capacity", ex, cp - m)
            c.prove_eq(INV, "element size is one byte", ex, c.cell(ex, reg, "ZyanVector", "element_size", base), ONE)
            if buf is not None:
                c.prove_eq(INV, "the given buffer is the storage", ex, data, Ptr(buf))
                c.prove_eq(INV, "the capacity is that of the buffer", ex, cp, cap)
            else:
                c.require(INV, "the allocated block is the storage", ex, [data.r] == live and data.o.const() == 0, repr((data, live)))
                if data.r.size is not None:
                    c.prove_eq(INV, "the capacity is that of the allocated block", ex, cp, data.r.size)
                c.prove(INV, "the capacity is positive", ex, cp - 1)
            p = c.sym("p")
            t = st.assume(m - 1 - p)
            for u, v in (c.I.read(t, data.r, p, 1, False) if t else ()):
                u2, bl = bits_of(c, u, v)
                for j in range(8) if bl else ():
                    c.prove_eq(BIT, "a new bitset has no bit set", Exit(u2, ex.ret), bl[j], ZERO)
                if bl is None and not isinstance(v, P):
                    c.require(BIT, "a new bitset has no bit set", Exit(u, ex.ret), False, repr(v))
        else:
            c.require(INV, "a failed construction keeps no memory", ex, not live, repr(live))
            if buf is not None:
                if c.isstatus(ex, "INSUFFICIENT_BUFFER_SIZE"):
                    c.prove(FAIL, "lack of room is reported only if the bits do not fit", ex, n - cap * 8 - 1)
                else:
                    t = st.assume(cap - 1)
                    t = t and t.assume(cap * 8 - n)
                    if t is not None and st.null.get(buf.id) is not True:
                        c.require(FAIL, "a usable buffer is accepted", Exit(t, ex.ret), False, repr(ex.ret))
            elif fn == "ZyanBitsetInitEx":
                if allocfail(ex) is not None:
                    c.prove_eq(FAIL, "the allocator's own error is returned", ex, ex.ret, allocfail(ex).ret)
                else:
                    c.require(FAIL, "only invalid arguments are rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
                    t = st.assume(gf - 1)
                    if t is not None:
                        c.require(FAIL, "valid arguments are accepted", Exit(t, ex.ret), False, repr(ex.ret))
            else:
                c.require(FAIL, "lack of memory is reported", ex, c.isstatus(ex, "NOT_ENOUGH_MEMORY"), repr(ex.ret))


def destroy(w, dyn, mem):
    c = Case(w, "ZyanBitsetDestroy", "dynamic" if dyn else "fixed buffer", mem)
    s = bitset(c, dyn=dyn)
    c.run(s.ptr)
    for ex in c.exits:
        de = [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "alloc" and e.name == "deallocate"]
        c.require(INV, "destroying releases the storage exactly once" if dyn else "destroying never releases a caller's buffer", ex,
                  len(de) == (1 if dyn else 0) and all(isinstance(e.args[0], Ptr) and e.args[0].r is s.data for e in de), repr(de))
        if de:
            c.prove_eq(FAIL, "the allocator's status is returned", ex, ex.ret, de[0].ret)
        else:
            c.require(FAIL, "destroying succeeds", ex, c.success(ex) is True, repr(ex.ret))


# ------------------------------------------------------------------ queries over all bits

def used_bits(pos, k, full):
    return list(range(8)) if full else [pos[i] for i in range(k)]


def counted(c, s, st, i):
    """ghost: number of used bits that are set in the first i bytes"""
    if i.const() == 0:
        return ZERO
    return V(term("bitcount", (s.data, i), 0, U64))


def count_lemma(c, s):
    pos = c.w.bitorder

    def lemma(st, goal):
        for a in sorted(deep_atoms(goal)):
            A = ATOMS[a]
            if A.kind != "bitcount" or A.args[0] is not s.data:
                continue
            i = A.args[1]
            if i.const() == 0:
                st = st.assume_eq(V(A)) or st
                continue
            prev = i - 1
            for full, g in ((True, s.q - 1 - prev), (False, prev - s.q)):
                if not st.entails(prev) or not st.entails(g) or not full and not (s.k and st.entails(s.q - prev)):
                    continue
                t, bl = bits_of(c, st, c.initial(st, s.data, prev))
                if t is None:
                    return st
                n = ZERO
                for j in used_bits(pos, s.k, full):
                    n = n + bl[j]
                t = t.assume_eq(V(A) - counted(c, s, t, prev) - n)
                if t is None:
                    return st
                st = t
        return st
    return lemma


def count(w, k, mem):
    if w.unroll >= 3 and not k:
        for m in (33, 8193):
            count_full(w, m, mem)
    pos = bitorder(w)
    c = Case(w, "ZyanBitsetCount", "%d bits in the last byte" % k, mem)
    s = bitset(c, k=k)
    out = c.out("count")
    total = counted(c, s, c.st, s.m)
    c.assume(s.size - total)
    c.I.lemma = count_lemma(c, s)
    c.I.extra_loop_cands = lambda q, kk: [q - counted(c, s, None, kk), counted(c, s, None, kk) - q, kk * 8 - q]
    c.run(s.ptr, Ptr(out))
    for ex in c.exits:
        c.require(LOG, "counting never fails on a valid bitset", ex, c.success(ex) is True, repr(ex.ret))
        same(c, ex, s, LOG)
        st = ex.st
        if w.unroll:
            # few bytes: add up their bits
            for m in range(0, 4):
                t = st.assume_eq(s.m - m)
                n = ZERO
                for i in range(m):
                    t, bl = bits_of(c, t, c.initial(t, s.data, K(i))) if t is not None else (None, None)
                    if t is None:
                        break
                    for j in used_bits(pos, s.k, i < m - 1 or not s.k):
                        n = n + bl[j]
                if t is not None:
                    t = t.assume_eq(total - n)
                if t is not None:
                    c.prove_eq(LOG, "the number of set bits is reported", Exit(t, ex.ret), c.outval(ex, out), n)
            continue
        v = c.outval(ex, out)
        for a in sorted(set(a for cc in list(st.cons) + [v if isinstance(v, P) else ZERO] for a in deep_atoms(cc))):
            if ATOMS[a].kind == "bitcount" and st is not None and st.entails_eq(ATOMS[a].args[1] - s.m):
                st = st.assume_eq(V(ATOMS[a]) - total)
        st = st and c.I.lemma(st, total)
        if st is not None:
            c.prove_eq(LOG, "the number of set bits is reported", Exit(st, ex.ret), v, total)


def count_full(w, m, mem):
    """refutation only: a large bitset with every bit set (counters that are too narrow)"""
    c = Case(w, "ZyanBitsetCount", "%d bytes, every bit set" % m, mem)
    s = bitset(c, k=0)
    out = c.out("count")
    for x in (s.m, s.v.cap):
        c.assume(x - m)
        c.assume(K(m) - x)
    s.data.bytes = b"\xff" * m
    c.I.unroll_limit, c.I.BUDGET = m + 2, 100 * m + 60000
    c.run(s.ptr, Ptr(out))
    for ex in c.exits:
        c.prove_eq(LOG, "the number of set bits is reported", ex, c.outval(ex, out), K(8 * m))


def query(w, fn, k, mem):
    """All, Any, None"""
    pos = bitorder(w)
    c = Case(w, fn, "%d bits in the last byte" % k, mem)
    s = bitset(c, k=k)
    c.run(s.ptr)
    # value every bit has when the "uniform" answer is given
    uni = 1 if fn == "ZyanBitsetAll" else 0
    T, F = c.w.ST["TRUE"], c.w.ST["FALSE"]
    yes = {"ZyanBitsetAll": T, "ZyanBitsetAny": F, "ZyanBitsetNone": T}[fn]
    for ex in c.exits:
        same(c, ex, s, LOG)
        r = ex.ret.const() if isinstance(ex.ret, P) else None
        if r not in (T, F):
            c.require(LOG, "the answer is TRUE or FALSE", ex, False, repr(ex.ret))
            continue
        st = ex.st
        if r == yes:
            # every used bit has the uniform value
            p = c.sym("p")
            for full in (True, False):
                if not full and not k:
                    continue
                t = st.assume(s.q - 1 - p) if full else st
                if t is None:
                    continue
                at = p if full else s.q
                for u in instantiate(t, {s.data: [at]}):
                    u, bl = bits_of(c, u, c.initial(u, s.data, at))
                    if u is None:
                        continue
                    for j in used_bits(pos, k, full):
                        c.prove_eq(LOG, "the uniform answer is given only if no bit differs", Exit(u, ex.ret), bl[j], K(uni))
        else:
            # some used bit differs: assume none does and refute
            offs = []
            for x in sorted(set(a for cc in list(st.cons) + list(st.diseq) for a in deep_atoms(cc))):
                A = ATOMS[x]
                if A.kind == "init" and A.args[0] is s.data and not any(A.args[1] == o for o in offs):
                    offs.append(A.args[1])
            t = [st]
            for o in offs:
                nxt = []
                for u in t:
                    for full, g in ((True, s.q - 1 - o), (False, o - s.q)):
                        v = u.assume(g)
                        if v is None:
                            continue
                        v, bl = bits_of(c, v, c.initial(v, s.data, o))
                        for j in used_bits(pos, k, full) if v is not None else ():
                            v = v and v.assume_eq(bl[j] - uni)
                        if v is not None:
                            nxt.append(v)
                t = nxt
            c.require(LOG, "the other answer is given only if some bit differs", Exit(t[0], ex.ret) if t else ex, not t,
                      "no bit that decides the answer was found")


def nulls(w, mem):
    N = NULLP
    one = ["ZyanBitsetDestroy", "ZyanBitsetFlip", "ZyanBitsetTestMSB", "ZyanBitsetTestLSB", "ZyanBitsetSetAll", "ZyanBitsetResetAll",
           "ZyanBitsetPop", "ZyanBitsetClear", "ZyanBitsetShrinkToFit", "ZyanBitsetAll", "ZyanBitsetAny", "ZyanBitsetNone"]
    two = ["ZyanBitsetSet", "ZyanBitsetReset", "ZyanBitsetToggle", "ZyanBitsetTest", "ZyanBitsetReserve", "ZyanBitsetPush", "ZyanBitsetInit"]
    out = ["ZyanBitsetGetSize", "ZyanBitsetGetCapacity", "ZyanBitsetGetSizeBytes", "ZyanBitsetGetCapacityBytes", "ZyanBitsetCount"]

    def check(fn, what, *args):
        c = Case(w, fn, what, mem)
        a = [x(c) if callable(x) else x for x in args]
        c.run(*a)
        for ex in c.exits:
            c.require(FAIL, "a missing %s is rejected" % what, ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
    n = lambda c: c.sym("value", 0, 255)
    o = lambda c: Ptr(c.out("result"))
    b = lambda c: bitset(c).ptr
    f = lambda c: Ptr(c.fnptr("operation", None))
    for fn in one:
        check(fn, "bitset", N)
    for fn in two:
        check(fn, "bitset", N, n)
    for fn in out:
        check(fn, "bitset", N, o)
    check("ZyanBitsetAssign", "bitset", N, n, n)
    check("ZyanBitsetCount", "result", b, N)
    for fn in ("ZyanBitsetAND", "ZyanBitsetOR", "ZyanBitsetXOR"):
        check(fn, "bitset", N, b)
        check(fn, "bitset", b, N)
    check("ZyanBitsetPerformByteOperation", "bitset", N, b, f)
    check("ZyanBitsetPerformByteOperation", "bitset", b, N, f)
    check("ZyanBitsetPerformByteOperation", "operation", b, b, N)
    check("ZyanBitsetInitEx", "bitset", N, n, lambda c: Ptr(allocator(c)), lambda c: ONE, n)
    check("ZyanBitsetInitEx", "allocator", lambda c: Ptr(c.struct("ZyanBitset", "bitset")), n, N, lambda c: ONE, n)
    check("ZyanBitsetInitBuffer", "bitset", N, lambda c: K(8), lambda c: Ptr(c.region("buffer", K(64))), lambda c: K(64))
    check("ZyanBitsetInitBuffer", "buffer", lambda c: Ptr(c.struct("ZyanBitset", "bitset")), lambda c: K(8), N, lambda c: K(64))


SERVES = ["B0[123]", "M01"]


def tasks(prop=None):
    mem = MEM
    T = []
    if prop in (None, "B01", "B02"):
        for fn in ("ZyanBitsetSet", "ZyanBitsetReset", "ZyanBitsetToggle", "ZyanBitsetTest", "ZyanBitsetAssign"):
            T += [(access, fn, k, mem) for k in range(8)]
        for k in range(8):
            T += [(ends, "ZyanBitsetTestMSB", k, mem), (ends, "ZyanBitsetTestLSB", k, mem)]
    if prop in (None, "B01", "B02", "M01"):
        for dyn in (True, False):
            for k in (0, 1, 7) if prop == "M01" else range(8):
                T += [(push, dyn, k, mem), (pop, dyn, k, mem)]
            T += [(resizing, fn, dyn, mem) for fn in ("ZyanBitsetClear", "ZyanBitsetReserve", "ZyanBitsetShrinkToFit")]
            T += [(destroy, dyn, mem)]
        T += [(init, fn, mem) for fn in ("ZyanBitsetInitBuffer", "ZyanBitsetInitEx", "ZyanBitsetInit")]
    if prop in (None, "B01"):
        T += [(getters, mem), (nulls, mem)]
    if prop in (None, "B01", "B03"):
        for k in range(8):
            T += [(whole, fn, k, mem) for fn in ("ZyanBitsetSetAll", "ZyanBitsetResetAll", "ZyanBitsetFlip")]
            T += [(query, fn, k, mem) for fn in ("ZyanBitsetAll", "ZyanBitsetAny", "ZyanBitsetNone")]
            T += [(count, k, mem)]
        for fn in ("ZyanBitsetAND", "ZyanBitsetOR", "ZyanBitsetXOR"):
            T += [(combine, fn, a, b, mem) for a, b in ((0, 0), (3, 0), (0, 5), (3, 5), (5, 3), (4, 4))]
        T += [(byte_op, False, mem), (byte_op, True, mem)]
    return T
