"""Contracts of the formatting component."""
import os
from .world import *
from . import contracts_string as cs
from .contracts_string import string, view, view_unchanged, growth_fail_ok, capacity_policy, same, MAXB
from .contracts_vector import inv

NUM, TEXT, ATOM = ("F01",), ("F02",), ("F03",)
MEM = ("F01", "F02", "F03")
SERVES = ["F0[123]"]
FULL = os.environ.get("VERIF_TIER") == "thorough"
U64MAX = (1 << 64) - 1


def valid(c, ex, s, props):
    """the string invariant (size, capacity, terminator) after the call"""
    r = inv(c, ex, s.v, props, "string")
    if r:
        c.prove(props, "the terminator is counted", ex, r[0] - 1)
        cs.terminated(c, ex, r[2].r, r[0] - 1, props)
    return r


def table_relation(c, st, atoms, f):
    """affine relations between x and f(entry) for table entries at positions k*x+j: exact, from the table's content"""
    groups = {}
    for a in atoms:
        off = a.args[1]
        base = {m: co for m, co in off.t.items() if m}
        g = 0
        for co in base.values():
            g = co if not g else __import__("math").gcd(g, co)
        g = abs(g) or 1
        key = (a.args[0].id, tuple(sorted((m, co // g) for m, co in base.items())))
        groups.setdefault(key, (a.args[0], P({m: co // g for m, co in base.items()}), []))[2].append((a, g, off.t.get((), 0)))
    return list(groups.values())


def bounds(c, st, x):
    """proved bounds of x in 0..256"""
    lo, hi = 0, None
    for h in (0, 1, 9, 15, 99, 127, 255):
        if st.entails(K(h) - x):
            hi = h
            break
    if hi is None or not st.entails(x):
        return None
    while lo < hi and st.entails(x - lo - 1):
        lo += 1
    while hi > lo and st.entails(K(hi - 1) - x):
        hi -= 1
    return lo, hi


def hull(points):
    """basis of the affine relations sum(c_i*v_i)+c = 0 satisfied by all points (integer coefficients)"""
    from fractions import Fraction
    from math import gcd
    rows = [list(map(Fraction, p)) + [Fraction(1)] for p in points]
    n = len(rows[0])
    piv = []
    r = 0
    for col in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][col]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        d = rows[r][col]
        rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][col]:
                m = rows[i][col]
                rows[i] = [x - m * y for x, y in zip(rows[i], rows[r])]
        piv.append(col)
        r += 1
    out = []
    for col in range(n):
        if col in piv:
            continue
        v = [Fraction(0)] * n
        v[col] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -rows[i][col]
        den = 1
        for x in v:
            den = den * x.denominator // gcd(den, x.denominator)
        out.append([int(x * den) for x in v])
    return out


def digit_of(ch, base, upper):
    if 48 <= ch <= 57:
        return ch - 48
    if base == 16 and (65 if upper else 97) <= ch <= (70 if upper else 102):
        return ch - (55 if upper else 87)
    return None


def decode(c, st, chars, base, upper, props, ex):
    """digit values of characters; [(state, [digit])].  A character that is not a digit is reported."""
    what = "every character of the number is a digit"
    tabs = []
    for ch in chars:
        x = ch.single() if isinstance(ch, P) else None
        if x is not None and x.kind == "tab":
            tabs.append(x)
    dig = {}
    for reg, x, group in table_relation(c, st, tabs, None):
        b = bounds(c, st, x)
        if b is None:
            c.ob(props, what, "undecided", "position in the digit table not bounded")
            return None
        lo, hi = b
        pts, bad = [], None
        for v in range(lo, hi + 1):
            row = [v]
            for a, g, k in group:
                pos = g * v + k
                dv = digit_of(reg.bytes[pos], base, upper) if 0 <= pos < len(reg.bytes) else None
                if dv is None:
                    bad = (a, g, k, v)
                row.append(dv)
            pts.append(row)
            if bad:
                break
        if bad:
            t = st.assume_eq(x - bad[3])
            if t is not None:
                r = c.reach(t)
                if r[0] != "ok":
                    c.ob(props, what, r[0], "entry %d of %s; %s" % (bad[1] * bad[3] + bad[2], reg.name, r[1]))
                    return None
        ds = [V(term("digit", (a.args[0], a.args[1], base, upper), 0, base - 1)) for a, _, _ in group]
        for (a, g, k), dv in zip(group, ds):
            dig[a.id] = dv
        for rel in hull(pts):
            e = x * rel[0] + rel[-1]
            for dv, co in zip(ds, rel[1:-1]):
                e = e + dv * co
            st2 = st.assume_eq(e)
            if st2 is None:
                return []
            st = st2
    out = []
    for ch in chars:
        if not isinstance(ch, P):
            c.ob(props, what, *c.flag(st, "uninitialised character %r" % (ch,)))
            return None
        k = ch.const()
        if k is not None:
            dv = digit_of(k, base, upper)
            if dv is None:
                c.ob(props, what, *c.flag(st, "character %d" % k))
                return None
            out.append(K(dv))
            continue
        x = ch.single()
        if x is not None and x.kind == "tab":
            out.append(dig[x.id])
            continue
        got = None
        for lo, n in ((48, 10), ((65 if upper else 97), 6)):
            if base == 10 and lo != 48:
                continue
            if st.entails(ch - lo) and st.entails(K(lo + n - 1) - ch):
                got = ch - lo + (0 if lo == 48 else 10)
        if got is None:
            t = None
            for lo, hi in ((0, 47), (58, 255)) if base == 10 else ((0, 47), (58, 64 if upper else 96), (71 if upper else 103, 255)):
                t = st.assume(ch - lo)
                t = t and t.assume(K(hi) - ch)
                if t is not None:
                    break
            r = c.reach(t) if t is not None else ("undecided", "digit or letter not decided")
            c.ob(props, what, r[0], "character %r; %s" % (ch, r[1]))
            return None
        out.append(got)
    c.ob(props, what, "ok")
    return [(st, out)]


def wrong_value(c, st, digs, chars, base, value):
    """prove the positional value; where digits come from a table, refutation enumerates the table positions"""
    tot = ZERO
    for d in digs:
        tot = tot * base + d
    r = c.decide_eq(st, tot - value)
    if r[0] == "ok":
        return r
    if not c.w.unroll:
        return ("undecided", r[1])
    groups = table_relation(c, st, [ch.single() for ch in chars if ch.single() is not None and ch.single().kind == "tab"], None)
    for reg, x, group in groups:
        b = bounds(c, st, x)
        if b is None:
            return ("undecided", r[1])
    # fix the table positions one group at a time, all others free
    order = [list(range(bounds(c, st, x)[0], bounds(c, st, x)[1] + 1)) for _, x, _ in groups]
    for i, (reg, x, group) in enumerate(groups):
        for v in order[i]:
            t = st.assume_eq(x - v)
            if t is None:
                continue
            # the simplest companion: every other group at its first feasible position
            for j, (reg2, x2, g2) in enumerate(groups):
                if j != i:
                    for v2 in order[j]:
                        u = t.assume_eq(x2 - v2)
                        if u is not None and not infeasible(u.cons):
                            t = u
                            break
                if t is None:
                    break
            if t is None or infeasible(t.cons):
                continue
            tt = ZERO
            ok = True
            for ch, d in zip(chars, digs):
                a = ch.single()
                if a is not None and a.kind == "tab":
                    pos = t_const(t, a.args[1])
                    if pos is None:
                        ok = False
                        break
                    dv = digit_of(a.args[0].bytes[pos], base, any(g[0] is a and False for g in group)) if 0 <= pos < len(a.args[0].bytes) else None
                    if dv is None:
                        dv = digit_of(a.args[0].bytes[pos], base, True)
                    if dv is None:
                        ok = False
                        break
                    tt = tt * base + dv
                else:
                    tt = tt * base + d
            if not ok:
                continue
            q = c.decide_eq(t, tt - value)
            if q[0] == "violated":
                return ("violated", "the digits of %r stand for another number: %s" % (value, q[1]))
    if not groups:
        return r
    return ("undecided", r[1])


def t_const(st, e):
    if e.const() is not None:
        return e.const()
    for v in range(0, 256):
        if st.entails_eq(e - v):
            return v
    return None


def number(c, ex, s, r, pre, value, d, pad, base, upper):
    """old content, `pre` (sign and prefix parts), zero padding, the digits of value"""
    size, cap, data = r
    off = s.len
    KEEP = "the characters of the string are kept"
    c.seq(NUM, KEEP, ex, data.r, ZERO, s.len, s.data, ZERO)
    for what, n, src in pre:
        c.seq(NUM, what, ex, data.r, off, off + n, src if callable(src) else src, -off) if not callable(src) else \
            c.seq(NUM, what, ex, data.r, off, off + n, src, ZERO)
        off = off + n
    for t in ex.st.split(pad - d - 1):
        if t is None:
            continue
        z = pad - d if t.entails(pad - d - 1) else ZERO
        e = Exit(t, ex.ret)
        c.prove_eq(NUM, "the length grows by the sign, the prefix and the padded number", e, size, off + z + d + 1)
        if z is not ZERO:
            c.seq(NUM, "the number is padded with zeros", e, data.r, off, off + z, lambda u, p: K(48), ZERO)
        sts = [(t, [])]
        for k in range(d):
            n = []
            for u, cs_ in sts:
                for q, v in c.I.read(u, data.r, off + z + k, 1, False):
                    n.append((q, cs_ + [v]))
            sts = n
        for u, chars in sts:
            dec = decode(c, u, chars, base, upper, NUM, ex)
            if dec is None:
                continue
            for q, digs in dec:
                rr = wrong_value(c, q, digs, chars, base, value)
                c.ob(NUM, "the digits represent the value", rr[0], rr[1] + (c.pathinfo(e) if rr[0] != "ok" else ""))


def fail(c, ex, s, need):
    """only growth can fail, and then nothing has changed"""
    failed = [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "alloc" and isinstance(e.ret, P) and ex.st.entails(e.ret - (1 << 31))]
    if s.dyn and any(ex.st.entails_eq(ex.ret - e.ret) for e in failed):
        c.ob(ATOM, "the allocator's own error is returned", "ok")
    else:
        growth_fail_ok(c, ex, s.v, need, ATOM)
    content_kept(c, ex, s)


def prep(c):
    c.I.table_atoms = True
    c.I.unroll_limit = 40
    c.I.MAXSTATES = 20000


def digit_range(c, value, d, base):
    if d > 1:
        c.assume(value - base ** (d - 1))
    c.assume(K(min(base ** d, 1 << 64) - 1) - value)


def unsigned(w, fn, base, d, dyn, bits=64):
    c = Case(w, fn, "%s, %d digits" % ("dynamic" if dyn else "fixed buffer", d), MEM)
    prep(c)
    s = string(c, "string", dyn)
    value = c.sym("value", 0, (1 << bits) - 1)
    digit_range(c, value, d, base)
    pad = c.sym("padding_length", 0, 255)
    for upper in ((None,) if base == 10 else (0, 1)):
        c.run(s.ptr, value, pad, *([] if upper is None else [K(upper)]))
        for ex in c.exits:
            if c.success(ex):
                r = valid(c, ex, s, NUM)
                if r:
                    number(c, ex, s, r, [], value, d, pad, base, upper)
            else:
                valid(c, ex, s, ATOM)
                for t in ex.st.split(pad - d - 1):
                    if t is not None:
                        fail(c, Exit(t, ex.ret), s, s.len + 1 + (pad if t.entails(pad - d - 1) else d))


def literal(ch):
    return lambda u, p: K(ch)


def signed(w, fn, base, d, dyn, neg, force, prefixed):
    c = Case(w, fn, "%s, %s%d digits%s%s" % ("dynamic" if dyn else "fixed buffer", "negative, " if neg else "", d, ", forced sign" if force else "", ", prefix" if prefixed else ""), MEM)
    prep(c)
    s = string(c, "string", dyn)
    mag = c.sym("magnitude", 0, 1 << 63 if neg else (1 << 63) - 1)
    digit_range(c, mag, d, base)
    if neg:
        c.assume(mag - 1)
    value = K(1 << 64) - mag if neg else mag
    pad = c.sym("padding_length", 0, 255)
    pv = view(c, "prefix") if prefixed else None
    pre = []
    if neg:
        pre.append(("a minus sign precedes a negative number", ONE, literal(45)))
    elif force:
        pre.append(("a plus sign precedes a number if requested", ONE, literal(43)))
    if prefixed:
        pre.append(("the prefix follows the sign", pv.len, pv.data))
    n = ZERO
    for _, k, _ in pre:
        n = n + k
    # both letter cases occur for every kind of sign and prefix
    upper = None if base == 10 else ({1: 0, 2: 1, 8: 0, 9: 1, 16: 0}.get(d, d) + neg) % 2
    c.run(s.ptr, value, pad, *([] if base == 10 else [K(upper)]), K(1 if force else 0), pv.ptr if prefixed else NULLP)
    for ex in c.exits:
        if prefixed:
            view_unchanged(c, ex, pv, ATOM, "prefix")
        if c.success(ex):
            r = valid(c, ex, s, NUM)
            if r:
                number(c, ex, s, r, pre, mag, d, pad, base, upper)
        else:
            valid(c, ex, s, ATOM)
            for t in ex.st.split(pad - d - 1):
                if t is not None:
                    fail(c, Exit(t, ex.ret), s, s.len + 1 + n + (pad if t.entails(pad - d - 1) else d))


def fmt(w, dyn):
    c = Case(w, "ZyanStringAppendFormat", "dynamic" if dyn else "fixed buffer", MEM)
    s = string(c, "string", dyn)
    f = c.region("format", None)
    c.run(s.ptr, Ptr(f))
    n = V(term("vsnlen", (f, ZERO), 0, (1 << 31) - 1))
    for ex in c.exits:
        evs = [e for e in ex.st.events() if e.kind == "va"]
        starts = sum(e.name in ("va_start", "va_copy") for e in evs)
        ends = sum(e.name == "va_end" for e in evs)
        c.require(TEXT, "every started argument list is ended", ex, starts == ends, "%d started, %d ended" % (starts, ends))
        calls = [e for e in evs if e.name == "vsnprintf"]
        for e in calls:
            c.require(TEXT, "the caller's format string is used", ex, e.args[2] == Ptr(f), repr(e.args[2]))
        if c.success(ex):
            r = valid(c, ex, s, TEXT)
            c.require(TEXT, "success is only reported after the text was produced", ex, bool(calls) and c.I is not None and not any(ex.st.entails(e.ret - (1 << 31)) for e in calls if isinstance(e.ret, P)))
            if r:
                size, cap, data = r
                c.prove_eq(TEXT, "the length grows by the length of the text", ex, size, s.len + n + 1)
                c.seq(TEXT, "the characters of the string are kept", ex, data.r, ZERO, s.len, s.data, ZERO)
                c.seq(TEXT, "the formatted text is appended as a whole", ex, data.r, s.len, s.len + n,
                      lambda u, p: V(term("opq", (("fmt", f, ZERO), ZERO, p - s.len, 1), 0, 255)), ZERO)
        else:
            valid(c, ex, s, ATOM)
            failed = any(isinstance(e.ret, P) and ex.st.entails(e.ret - (1 << 31)) for e in calls)
            if failed:
                # the library function reported an encoding error
                content_kept(c, ex, s)
                c.require(TEXT, "an error of the formatter is reported", ex, c.success(ex) is False)
            else:
                fail(c, ex, s, s.len + n + 1)


def content_kept(c, ex, s):
    """the text is unchanged (the buffer may have been reallocated)"""
    size = c.cell(ex, s.reg, "ZyanVector", "size", s.v.base)
    data = c.cell(ex, s.reg, "ZyanVector", "data", s.v.base)
    c.prove_eq(ATOM, "a failed call leaves the text unchanged", ex, size, s.len + 1)
    c.seq(ATOM, "a failed call leaves the text unchanged", ex, data.r, ZERO, s.len, s.data, ZERO)


def nulls(w):
    for fn, args in (("ZyanStringAppendDecU", (NULLP, K(1), K(0))), ("ZyanStringAppendHexU", (NULLP, K(1), K(0), K(0))),
                     ("ZyanStringAppendDecS", (NULLP, K(1), K(0), K(0), NULLP)), ("ZyanStringAppendHexS", (NULLP, K(1), K(0), K(0), K(0), NULLP)),
                     ("ZyanStringAppendDecS", (NULLP, K(U64MAX), K(0), K(1), NULLP)), ("ZyanStringAppendHexS", (NULLP, K(U64MAX), K(0), K(0), K(1), NULLP))):
        c = Case(w, fn, "NULL string", MEM)
        c.run(*args)
        for ex in c.exits:
            c.require(ATOM, "a NULL string is rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
    for k in (0, 1):
        c = Case(w, "ZyanStringAppendFormat", ("NULL string", "NULL format")[k], MEM)
        s = string(c, "string", True)
        f = c.region("format", None)
        c.run(*((NULLP, Ptr(f)) if k == 0 else (s.ptr, NULLP)))
        for ex in c.exits:
            c.require(ATOM, "a NULL argument is rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            same(c, ex, s, ATOM)


def tasks(prop=None):
    T = []
    if prop in (None, "F01", "F03"):
        for base, k in ((10, "Dec"), (16, "Hex")):
            for d in range(1, (20 if base == 10 else 16) + 1):
                for dyn in (True, False):
                    T.append((unsigned, "ZyanStringAppend%sU" % k, base, d, dyn))
            for d in (1, 2, 8, 9, 19) if base == 10 else (1, 2, 8, 9, 16):
                for dyn in (True, False):
                    for neg in (True, False):
                        for force in (True, False):
                            for pf in (True, False):
                                if dyn and pf and (d > 2 or not FULL and (d == 2 or neg == force)):
                                    # storage growth and prefix: few digits; many digits: without prefix or in a fixed buffer
                                    continue
                                T.append((signed, "ZyanStringAppend%sS" % k, base, d, dyn, neg, force, pf))
    if prop in (None, "F02", "F03"):
        T += [(fmt, True), (fmt, False)]
    T.append((nulls,))
    return T
