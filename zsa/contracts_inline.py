"""Contracts of the header-only parts: comparison functions, arithmetic macros, status codes, version, atomics."""
from .world import *

CONFIG = "inline"
SERVES = ["C0[123]", "K01"]
CMP, ARI, STA, ATM = ("C01",), ("C02",), ("C03",), ("K01",)
SEQ_CST = 7


# ---------------------------------------------------------------- comparison functions
def element(c, name, w, signed, sign):
    """(mathematical value, machine value) of one element"""
    if not signed:
        v = c.sym(name, 0, (1 << w) - 1)
        return v, v
    if sign:
        v = c.sym(name, 1, 1 << (w - 1))
        return -v, K(1 << w) - v
    v = c.sym(name, 0, (1 << (w - 1)) - 1)
    return v, v


def compare(w, fn, width, signed, three, off=0, size=None):
    for s1 in ((0, 1) if signed else (0,)):
        for s2 in ((0, 1) if signed else (0,)):
            for rel in (-1, 0, 1):
                c = Case(w, fn, "left %s right%s" % ("<=>"[rel + 1], ", signs %s%s" % ("+-"[s1], "+-"[s2]) if signed else ""), CMP)
                l, lm = element(c, "left", width, signed, s1)
                r, rm = element(c, "right", width, signed, s2)
                goal = {-1: r - l - 1, 1: l - r - 1}.get(rel)
                t = c.st.assume(goal) if goal is not None else c.st.assume_eq(l - r)
                if t is None:
                    continue
                c.st = t.fork()
                if infeasible(c.st.cons):
                    continue
                regs = []
                for n, v in (("left element", lm), ("right element", rm)):
                    q = c.region(n, K(size or width // 8), "cells")
                    q.init_content = "undef"
                    q.readonly = True
                    c.st.setcell(q, off, width // 8, v)
                    regs.append(q)
                c.run(Ptr(regs[0]), Ptr(regs[1]))
                for ex in c.exits:
                    if three:
                        c.prove_eq(CMP, "the comparison orders the elements", ex, ex.ret, K(rel % (1 << 32)))
                    else:
                        c.prove_eq(CMP, "equality is reported exactly for equal elements", ex, ex.ret, K(1 if rel == 0 else 0))


# ---------------------------------------------------------------- arithmetic macros
def minmax(w, n, width, signed):
    for kind in ("min", "max"):
        for s1 in ((0, 1) if signed else (0,)):
            for s2 in ((0, 1) if signed else (0,)):
                c = Case(w, "inl_%s_%s" % (kind, n), "signs %s%s" % ("+-"[s1], "+-"[s2]), ARI)
                a, am = element(c, "a", width, signed, s1)
                b, bm = element(c, "b", width, signed, s2)
                c.run(am, bm)
                for ex in c.exits:
                    for t in ex.st.split(a - b):        # a >= b
                        if t is None:
                            continue
                        big = t.entails(a - b)
                        want = (bm if big else am) if kind == "min" else (am if big else bm)
                        c.prove_eq(ARI, "the %s of both values is chosen" % ("smaller" if kind == "min" else "bigger"), Exit(t, ex.ret), ex.ret, want)


def minexpr(w):
    c = Case(w, "inl_minexpr", "operands are expressions", ARI)
    q, m = c.sym("b_high", 0, (1 << 61) - 1), c.sym("b_low", 0, 7)
    c.run(K(4), q * 8 + m)
    for ex in c.exits:
        for t in ex.st.split(m - 5):
            if t is not None:
                c.prove_eq(ARI, "operands are evaluated as a whole", Exit(t, ex.ret), ex.ret, K(5) if t.entails(m - 5) else m)


def whole(w, name):
    """operands are ?: expressions and the result is used in a sum"""
    for k in (1, 0):
        for kind in ((0, 1) if name in ("min", "max", "abs") else (4, 5) if name in ("isal", "alup", "aldn") else (0,)):
            c = Case(w, "inl_w_" + name, "operand %d, kind %d" % (k, kind), ARI)
            H = 1 << 40
            x, y = c.sym("x", 0, H), c.sym("y", 0, H)
            a, b = (x, y) if k else (y, x)
            if name in ("min", "max"):
                c.assume(a - b if kind else b - a - 1)
                want = b if (kind == 1) == (name == "min") else a
            elif name == "abs":
                want = a
                if kind:
                    c.assume(a - 1)
                    x, y = (K(1 << 64) - x, y) if k else (x, K(1 << 64) - y)
            elif name in ("pow", "bits"):
                a = K(3 << 10) if k else K(1 << 20)
                x, y = (a, y) if k else (x, a)
                want = K({("pow", 1): 0, ("pow", 0): 1, ("bits", 1): 12, ("bits", 0): 21}[name, k])
            else:
                A = 16 if k else 64
                q, r = c.sym("quotient", 0, H), c.sym("remainder", 1, A - 1) if kind == 5 else ZERO
                a = q * A + r
                x, y = (a, y) if k else (x, a)
                want = K(int(kind == 4)) if name == "isal" else q * A if name == "aldn" or kind == 4 else q * A + A
            c.run(K(k), x, y)
            for ex in c.exits:
                c.prove_eq(ARI, "operands and result of the macro are treated as a whole", ex, ex.ret, want + 2)


def absolute(w, fn, width, u=False):
    for neg in (0, 1):
        c = Case(w, fn, "negative" if neg else "not negative", ARI)
        v, vm = element(c, "value", width, True, neg)
        if neg and not u:
            c.assume(K((1 << (width - 1)) - 1) + v)        # the most negative value has no absolute value of its type
        c.run(vm)
        for ex in c.exits:
            c.prove_eq(ARI, "the absolute value is exact", ex, ex.ret, -v if neg else v)


def absdiff(w):
    for neg in (0, 1):
        c = Case(w, "inl_abs_diff", "a %s b" % ("<" if neg else ">="), ARI)
        a, b = c.sym("a", 0, (1 << 62)), c.sym("b", 0, (1 << 62))
        c.assume(b - a - 1 if neg else a - b)
        c.run(a, b)
        for ex in c.exits:
            c.prove_eq(ARI, "operands are evaluated as a whole", ex, ex.ret, b - a if neg else a - b)


def pow2(w, fn, width):
    for k in range(width + 1):
        for exact in (True, False):
            c = Case(w, fn, "%s%s" % ("zero" if k == 0 else "bit %d" % (k - 1), "" if exact else " and lower ones"), ARI)
            if k == 0:
                if not exact:
                    continue
                x = ZERO
            elif exact:
                x = K(1 << (k - 1))
            else:
                if k < 2:
                    continue
                x = c.sym("x", (1 << (k - 1)) + 1, (1 << k) - 1)
            c.run(x)
            for ex in c.exits:
                c.prove_eq(ARI, "powers of two (and zero) are recognised, nothing else", ex, ex.ret, K(1 if exact else 0))


def align(w, width, ks, sfx=None):
    """64- and 32-bit values with alignments of the same type; 64-bit values with alignments written as plain int (sfx "i")"""
    if sfx is None:
        sfx = "32" if width == 32 else ""
    top = (1 << width) - 1
    for k in ks:
        A = 1 << k
        for r0 in (0, 1):
            if r0 and k == 0:
                continue
            for kind in ("isal", "alup", "aldn"):
                c = Case(w, "inl_%s%s_%d" % (kind, sfx, k), "aligned" if not r0 else "not aligned", ARI)
                q = c.sym("quotient", 0, top // A)
                rem = c.sym("remainder", 1, A - 1) if r0 else ZERO
                x = q * A + rem
                c.assume(K(top) - x)
                if kind == "alup" and r0:
                    c.assume(K(top) - q * A - A)           # the next boundary is representable
                c.run(x)
                for ex in c.exits:
                    if kind == "isal":
                        c.prove_eq(ARI, "alignment is recognised exactly", ex, ex.ret, K(0 if r0 else 1))
                    elif kind == "alup":
                        c.prove_eq(ARI, "rounding up yields the next boundary not below the value", ex, ex.ret, q * A + A * r0)
                    else:
                        c.prove_eq(ARI, "rounding down yields the last boundary not above the value", ex, ex.ret, q * A)


def bits(w):
    for k in range(33):
        c = Case(w, "inl_bits", "%d bits" % k, ARI)
        x = c.sym("n", 1 << (k - 1), (1 << k) - 1) if k > 1 else K(k)
        c.run(x)
        for ex in c.exits:
            c.prove_eq(ARI, "the number of bits is exact", ex, ex.ret, K(k))


def rest(w):
    c = Case(w, "inl_div64", "any dividend", ARI)
    q, r = c.sym("quotient", 0, U64 // 10), c.sym("remainder", 0, 9)
    c.assume(K(U64) - q * 10 - r)
    c.run(q * 10 + r)
    for ex in c.exits:
        c.prove_eq(ARI, "64-bit division is exact", ex, ex.ret, q)
    c = Case(w, "inl_arraylen", "11 elements", ARI)
    c.run()
    for ex in c.exits:
        c.prove_eq(ARI, "the array length counts elements", ex, ex.ret, K(11))


# ---------------------------------------------------------------- status codes and version
def status_fields(w):
    c = Case(w, "inl_make", "all fields", STA)
    e, m, k = c.sym("error", 0, 1), c.sym("module", 0, 0x7FF), c.sym("code", 0, 0xFFFFF)
    s = e * (1 << 31) + m * (1 << 20) + k
    c.run(e, m, k)
    for ex in c.exits:
        c.prove_eq(STA, "a status packs error bit, module and code", ex, ex.ret, s)
    for fn, want, what in (("inl_module", m, "the module of a status is recovered"), ("inl_code", k, "the code of a status is recovered"),
                           ("inl_success", ONE - e, "success means the error bit is clear"), ("inl_failed", e, "failure means the error bit is set")):
        c2 = Case(w, fn, "all statuses", STA)
        c2.st = c.st.fork()
        c2.run(s)
        for ex in c2.exits:
            c2.prove_eq(STA, what, ex, ex.ret, want)


def status_check(w):
    for neg in (0, 1):
        def nxt(I, st, inst, a):
            st = st.fork()
            v = I.fresh("status", 1 << 31 if neg else 0, (1 << 32) - 1 if neg else (1 << 31) - 1)
            I.emit(st, "user", "next", [], v, inst)
            return [(st, v)]
        c = Case(w, "inl_check", "failing expression" if neg else "successful expression", STA, models={"inl_next": nxt})
        done = c.region("done", K(4), "cells")
        d0 = c.sym("before", 0, 100)
        c.st.setcell(done, 0, 4, d0 + 2)
        c.run(Ptr(done))
        for ex in c.exits:
            evs = [e for e in ex.st.events() if e.kind == "user"]
            c.require(STA, "the checked expression is evaluated exactly once", ex, len(evs) == 1, "%d times" % len(evs))
            if neg:
                c.prove_eq(STA, "a failure is returned as it is", ex, ex.ret, evs[0].ret if evs else None)
                c.prove_eq(STA, "a failure ends the function", ex, c.outval(ex, done), d0 + 2)
            else:
                c.require(STA, "a success continues the function", ex, c.isstatus(ex, "TRUE"), repr(ex.ret))
                c.prove_eq(STA, "a success continues the function", ex, c.outval(ex, done), ONE)


GOOD = ("SUCCESS", "TRUE", "FALSE")


def codes(w):
    c = Case(w, "inl_success", "predefined codes", STA)
    ST = w.ST
    for n in sorted(ST):
        c.run(K(ST[n]))
        for ex in c.exits:
            c.require(STA, "ZYAN_STATUS_%s is %s" % (n, "a success" if n in GOOD else "an error"), ex,
                      isinstance(ex.ret, P) and ex.ret.const() == (1 if n in GOOD else 0), repr(ex.ret))
            dup = [m for m in ST if m != n and ST[m] == ST[n]]
            c.require(STA, "ZYAN_STATUS_%s is distinct from every other status" % n, ex, not dup, "same value as %s" % dup)
            c.require(STA, "ZYAN_STATUS_%s fits a status value" % n, ex, 0 <= ST[n] < 1 << 32, hex(ST[n]))
    c = Case(w, "inl_module", "predefined codes", STA)
    for n in sorted(ST):
        c.run(K(ST[n]))
        for ex in c.exits:
            want = 3 if n in ("ARG_NOT_UNDERSTOOD", "TOO_FEW_ARGS", "TOO_MANY_ARGS", "ARG_MISSES_VALUE", "REQUIRED_ARG_MISSING") else 1
            c.require(STA, "ZYAN_STATUS_%s belongs to its module" % n, ex, isinstance(ex.ret, P) and ex.ret.const() == want, repr(ex.ret))


def version(w):
    c = Case(w, "ZycoreGetVersion", "any", STA)
    c.run()
    for ex in c.exits:
        c.prove_eq(STA, "the library reports the version of its headers", ex, ex.ret, K(w.lay.val("ZYCORE_VERSION")))
    for i, (fn, what) in enumerate((("inl_vbuild", "build"), ("inl_vpatch", "patch"), ("inl_vminor", "minor"), ("inl_vmajor", "major"))):
        c = Case(w, fn, "any version", STA)
        p = [c.sym(n, 0, 0xFFFF) for n in ("build", "patch", "minor", "major")]
        c.run(p[0] + p[1] * (1 << 16) + p[2] * (1 << 32) + p[3] * (1 << 48))
        for ex in c.exits:
            c.prove_eq(STA, "the %s part of a version is extracted" % what, ex, ex.ret, p[i])


def types(w):
    g = {}
    for x in w.m.globals.values():
        if isinstance(x.init, CInt):
            g[x.name] = x.init.v
    c = Case(w, "inl_success", "type facts", STA)
    c.run(K(0))
    ex = c.exits[0]
    ptr = g["type_pointer"]
    want = {"ZyanU8": 8, "ZyanU16": 16, "ZyanU32": 32, "ZyanU64": 64, "ZyanI8": 1008, "ZyanI16": 1016, "ZyanI32": 1032, "ZyanI64": 1064,
            "ZyanUPointer": ptr, "ZyanIPointer": ptr + 1000, "ZyanStatus": 32, "ZyanUSize": ptr, "ZyanISize": ptr + 1000}
    for t, v in want.items():
        c.require(STA, "%s has the width and signedness its name says" % t, ex, g["type_" + t] == v, "%d" % g["type_" + t])
    for m in (8, 16, 32, 64):
        for n, v in (("INT%d_MIN" % m, -(1 << (m - 1))), ("INT%d_MAX" % m, (1 << (m - 1)) - 1), ("UINT%d_MAX" % m, (1 << m) - 1)):
            x = g["lim_" + n]
            c.require(STA, "ZYAN_%s is the limit of its type" % n, ex, x == v % (1 << 64), hex(x))
    c.require(STA, "true and false differ", ex, g["val_TRUE"] == 1 and g["val_FALSE"] == 0)
    tern = [g["val_T" + n] for n in ("TRUE", "FALSE", "UNKNOWN")]
    c.require(STA, "the three ternary values differ", ex, len(set(tern)) == 3, repr(tern))


# ---------------------------------------------------------------- atomics
def atomic(w, fn, kind, width):
    c = Case(w, fn, "concurrently accessed object", ATM)
    d = c.region("destination", K(width // 8), "cells")
    d.init_content = "undef"
    c.I.shared.add(d.id)
    M = 1 << width
    args = [Ptr(d)]
    if kind == "cas":
        cmp_, new = c.sym("comparand", 0, M - 1), c.sym("value", 0, M - 1)
        args += [cmp_, new]
    c.run(*args)
    for ex in c.exits:
        evs = [e for e in ex.st.events() if isinstance(e, Ev)]
        plain = [e for e in evs if e.kind == "shared" and e.name == "plain store"]
        c.require(ATM, "the object is only written by atomic instructions", ex, not plain, repr(plain))
        at = [e for e in evs if e.kind == "atomic"]
        wr = [e for e in at if not (e.name == "cmpxchg" and e.x[0] is False)]
        c.require(ATM, "every atomic instruction is a full barrier", ex, all((e.x[1] if e.name == "cmpxchg" else e.x[-1]) == SEQ_CST for e in at), repr([e.x for e in at]))
        for e in at:
            c.prove_eq(ATM, "the given object is accessed", ex, e.args[0], Ptr(d))
        if kind == "cas":
            c.require(ATM, "one atomic compare-and-swap takes place", ex, len(at) == 1 and at[0].name == "cmpxchg", repr(at))
            if len(at) != 1 or at[0].name != "cmpxchg":
                continue
            e = at[0]
            c.prove_eq(ATM, "the object is compared with the comparand", ex, e.args[1], cmp_)
            c.prove_eq(ATM, "the replacement value is stored", ex, e.args[2], new)
            c.prove_eq(ATM, "the original value is returned", ex, ex.ret, e.ret)
            continue
        c.require(ATM, "the object is changed by exactly one atomic instruction", ex, len(wr) == 1, repr(wr))
        if len(wr) != 1:
            continue
        e = wr[0]
        delta = 1 if kind == "inc" else -1
        if e.name == "cmpxchg":
            stored = c.I.wrap(ex.st, e.args[1] + delta, width)
            for t, v in stored:
                c.prove_eq(ATM, "the stored value is the original plus %d" % delta, Exit(t, ex.ret), e.args[2], v)
        elif e.name in ("add", "sub"):
            amt = e.args[1] if e.name == "add" else -e.args[1]
            for t, v in c.I.wrap(ex.st, amt - delta, width):
                c.prove_eq(ATM, "the stored value is the original plus %d" % delta, Exit(t, ex.ret), v, ZERO)
        else:
            c.require(ATM, "the stored value is the original plus %d" % delta, ex, False, "atomic %s" % e.name)
            continue
        for t, v in c.I.wrap(ex.st, e.ret + delta, width):
            c.prove_eq(ATM, "the new value is returned", Exit(t, ex.ret), ex.ret, v)


def tasks(prop=None):
    T = []
    if prop in (None, "C01"):
        for n, wd in (("Pointer", 64), ("Bool", 8), ("Numeric8", 8), ("Numeric16", 16), ("Numeric32", 32), ("Numeric64", 64)):
            T += [(compare, "ZyanEquals" + n, wd, False, False), (compare, "ZyanCompare" + n, wd, False, True)]
        for wd in (8, 16, 32, 64):
            T += [(compare, "inl_eq_i%d" % wd, wd, True, False), (compare, "inl_cmp_i%d" % wd, wd, True, True)]
        T += [(compare, "inl_eq_key", 32, True, False, 8, 16), (compare, "inl_cmp_key", 32, True, True, 8, 16)]
    if prop in (None, "C02"):
        for wd in (8, 16, 32, 64):
            T += [(minmax, "u%d" % wd, wd, False), (minmax, "i%d" % wd, wd, True)]
        T += [(whole, n) for n in ("min", "max", "abs", "pow", "isal", "alup", "aldn", "bits")]
        T += [(minexpr,), (absdiff,), (absolute, "inl_abs_i32", 32), (absolute, "inl_abs_i64", 64), (absolute, "ZyanAbsI64", 64, True)]
        T += [(pow2, "inl_pow2_u32", 32), (pow2, "inl_pow2_u64", 64), (bits,), (rest,)]
        T += [(align, 64, range(i, i + 16)) for i in (0, 16, 32, 48)] + [(align, 32, range(0, 32)), (align, 64, range(0, 31), "i")]
    if prop in (None, "C03"):
        T += [(status_fields,), (status_check,), (codes,), (version,), (types,)]
    if prop in (None, "K01"):
        for sfx, wd in (("", 64), ("32", 32), ("64", 64)):
            for kind, n in (("cas", "CompareExchange"), ("inc", "Increment"), ("dec", "Decrement")):
                T += [(atomic, "ZyanAtomic" + n + sfx, kind, wd), (atomic, "inl_" + kind + sfx, kind, wd)]
    return T
