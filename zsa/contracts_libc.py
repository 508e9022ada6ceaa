"""Contracts of the fallbacks LibC.h provides for environments without a C library."""
from .world import *
from .contracts_string import closure, instantiate, atoms_of
from .models import m_strlen

CONFIG = "libc"
SERVES = ["P01"]
LC = ("P01",)
MAXL = 1 << 50
INT = 1 << 32


# ---------------------------------------------------------------- entry states
def cstring(c, name, cap=None, ro=True):
    """region with a NUL-terminated string; (region, length).  Without cap nothing lies behind the terminator."""
    n = c.sym(name + ".length", 0, MAXL)
    r = c.region(name, n + 1 if cap is None else cap)
    r.term, r.cstr, r.chars, r.readonly = n, True, n, ro
    return r, n


def block(c, name, size, ro=True):
    r = c.region(name, size)
    r.readonly = ro
    return r


def char_arg(c):
    """an int argument and the unsigned char it is converted to"""
    b = c.sym("c", 0, 255)
    return c.sym("c_high", 0, (1 << 24) - 1) * 256 + b, b


# ---------------------------------------------------------------- quantified clauses
def byte(c, st, r, o):
    return c.I.initial(st, r, o, 1, False)


def forall(c, ex, what, lo, hi, regs, bad):
    """bad(state, position) -> states that break the clause; no position in [lo, hi) may have one"""
    if c.w.unroll:
        for k in range(c.w.unroll):
            for q in (lo + k, hi - 1 - k):
                u = ex.st.assume(q - lo)
                u = u and u.assume(hi - 1 - q)
                for z in bad(u, q) if u else ():
                    z = closure(z, regs)
                    r = c.reach(z) if z else ("ok", "")
                    if r[0] == "violated":
                        return c.ob(LC, what, "violated", "position %r; %s%s" % (q, r[1], c.pathinfo(ex)))
        return True
    q = c.sym("q", 0, 1 << 62)
    t = ex.st.assume(q - lo)
    t = t and t.assume(hi - 1 - q)
    if t is None:
        return c.ob(LC, what, "ok", "no position")
    for u in instantiate(t, {r: [q] for r in regs}):
        u = u and closure(u, regs)
        for z in bad(u, q) if u else ():
            z = closure(z, regs)
            if z is not None and not infeasible(z.cons):
                return c.ob(LC, what, "undecided", "position %r, under %s" % (q, list(z.cons)[-12:]))
    return c.ob(LC, what, "ok")


def differ(c, u, x, y):
    """states in which two bytes (reg, offset) differ"""
    out = []
    for s, a in byte(c, u, *x):
        for t, b in byte(c, s, *y):
            t = t.assume_ne(a - b)
            if t:
                out.append(t)
    return out


def equals(c, u, x, v):
    out = []
    for s, a in byte(c, u, *x):
        s = s.assume_eq(a - v)
        if s:
            out.append(s)
    return out


def pointer(c, ex, r, props=LC):
    """offset of the returned pointer into r, None for NULL"""
    p = ex.ret
    if isinstance(p, Ptr) and p.r is NULLR and p.o.const() == 0 or isinstance(p, P) and p.const() == 0:
        return None
    ok = isinstance(p, Ptr) and p.r is r
    c.require(props, "the result is NULL or points into the searched object", ex, ok, repr(p))
    return p.o if ok else None


# ---------------------------------------------------------------- searching for a character
def strlen(w):
    c = Case(w, "ZYAN_STRLEN", "any", LC)
    s, n = cstring(c, "s")
    c.run(Ptr(s))
    for ex in c.exits:
        c.prove_eq(LC, "the length is reported", ex, ex.ret, n)


def chr_(w, fn):
    last, mem = fn == "ZYAN_STRRCHR", fn == "ZYAN_MEMCHR"
    c = Case(w, fn, "any", LC)
    if mem:
        n = c.sym("n", 0, MAXL)
        s = block(c, "s", n)
        end = n
    else:
        s, n = cstring(c, "s")
        end = n + 1                      # the terminator belongs to the string
    ci, b = char_arg(c)
    c.run(*([Ptr(s), ci, n] if mem else [Ptr(s), ci]))
    for ex in c.exits:
        f = pointer(c, ex, s)
        isb = lambda u, q: equals(c, u, (s, q), b)
        if f is None:
            forall(c, ex, "NULL is returned only if the character does not occur", ZERO, end, [s], isb)
            continue
        c.prove(LC, "the result lies inside the object", ex, f)
        c.prove(LC, "the result lies inside the object", ex, end - 1 - f)
        u = ex.st.assume(f)
        u = u and u.assume(end - 1 - f)
        for t, v in byte(c, u, s, f) if u else ():
            c.prove_eq(LC, "the result is an occurrence", Exit(t, ex.ret), v, b)
        if last:
            forall(c, ex, "no occurrence lies behind the result", f + 1, end, [s], isb)
        else:
            forall(c, ex, "no occurrence lies before the result", ZERO, f, [s], isb)


# ---------------------------------------------------------------- comparing
def cmp_(w, fn):
    mem, lim = fn == "ZYAN_MEMCMP", fn in ("ZYAN_MEMCMP", "ZYAN_STRNCMP")
    c = Case(w, fn, "any", LC)
    n = c.sym("n", 0, MAXL) if lim else None
    if mem:
        a, b = block(c, "s1", n), block(c, "s2", n)
        la = lb = n
    else:
        (a, la), (b, lb) = cstring(c, "s1"), cstring(c, "s2")
    c.run(*([Ptr(a), Ptr(b)] + ([n] if lim else [])))
    for ex in c.exits:
        if not isinstance(ex.ret, P):
            c.require(LC, "a result is returned", ex, False, repr(ex.ret))
            continue
        zero, rest = ex.st.split_eq(ex.ret)
        if zero is not None:
            x = Exit(zero, ex.ret)
            dif = lambda u, q: differ(c, u, (a, q), (b, q))
            if mem:
                forall(c, x, "equal blocks have equal bytes", ZERO, n, [a, b], dif)
            else:
                # two strings (prefixes) are equal if the characters up to the terminator or limit are
                for t in zero.split(la - lb):
                    if t is None:
                        continue
                    short = lb if t.entails(la - lb) else la
                    for v in (t.split(n - short - 1) if lim else (t,)):
                        if v is None:
                            continue
                        full = not lim or v.entails(n - short - 1)
                        y = Exit(v, ex.ret)
                        forall(c, y, "equal strings have equal characters", ZERO, short + 1 if full else n, [a, b], dif)
        for neg, t in ((True, rest and rest.assume(ex.ret - (1 << 31))), (False, rest and rest.assume(K((1 << 31) - 1) - ex.ret))):
            if t is not None:
                order(c, Exit(t, ex.ret), a, b, la, lb, n, neg, mem)


def order(c, ex, a, b, la, lb, n, neg, mem):
    what = "the sign follows the first different character"
    if c.w.unroll:
        for k in range(c.w.unroll + 1):
            sts = [ex.st]
            for q in range(k):
                nx = []
                for u in sts:
                    u = u.assume(la - 1 - q)
                    u = u and u.assume(lb - 1 - q)
                    for s, x in byte(c, u, a, K(q)) if u else ():
                        for t, y in byte(c, s, b, K(q)):
                            t = t.assume_eq(x - y)
                            if t:
                                nx.append(t)
                sts = nx[:8]
            for u in sts:
                bad = []
                e = n is not None and u.assume_eq(n - k)
                if e:
                    bad.append(e)
                v = u.assume(la - k - (1 if mem else 0))
                v = v and v.assume(lb - k - (1 if mem else 0))
                if v and n is not None:
                    v = v.assume(n - 1 - k)
                for s, x in byte(c, v, a, K(k)) if v else ():
                    for t, y in byte(c, s, b, K(k)):
                        t = t.assume(x - y - 1 if neg else y - x - 1)
                        if t:
                            bad.append(t)
                        # both terminators: equal strings reported as different
                    if not mem:
                        z = s.assume_eq(la - k)
                        z = z and z.assume_eq(lb - k)
                        if z:
                            bad.append(z)
                for z in bad:
                    z = closure(z, [a, b])
                    r = c.reach(z) if z else ("ok", "")
                    if r[0] == "violated":
                        return c.ob(LC, what, "violated", "first difference at %d; %s%s" % (k, r[1], c.pathinfo(ex)))
        return True
    t = ex.st
    for k in [o for o, _ in atoms_of(t, a)] + [o for o, _ in atoms_of(t, b)]:
        if not (t.entails(la - k) and t.entails(lb - k) and (n is None or t.entails(n - 1 - k))):
            continue
        ok = True
        for s, x in byte(c, t, a, k):
            for u, y in byte(c, s, b, k):
                u = closure(u, [a, b])
                if u is not None and not u.entails(y - x - 1 if neg else x - y - 1):
                    ok = False
        if ok:
            c.ob(LC, what, "ok")
            return forall(c, ex, "the characters before the first difference are equal", ZERO, k, [a, b], lambda u, q: differ(c, u, (a, q), (b, q)))
    return c.ob(LC, what, "undecided", "no position of the first difference found%s" % c.pathinfo(ex))


# ---------------------------------------------------------------- copying
def returns(c, ex, d):
    c.prove_eq(LC, "the destination is returned", ex, ex.ret, d)


def zeros(u, p):
    return ZERO


def memcpy(w):
    c = Case(w, "ZYAN_MEMCPY", "any", LC)
    n = c.sym("n", 0, MAXL)
    s, cap = block(c, "source", n), c.sym("capacity", 0, MAXL)
    d = block(c, "destination", cap, False)
    c.assume(cap - n)
    c.run(Ptr(d), Ptr(s), n)
    for ex in c.exits:
        returns(c, ex, Ptr(d))
        c.seq(LC, "the bytes are copied", ex, d, ZERO, n, s, ZERO)
        c.seq(LC, "nothing behind the copied bytes changes", ex, d, n, cap, d, ZERO)


def memmove(w, case):
    c = Case(w, "ZYAN_MEMMOVE", case, LC)
    n, cap, i, k = c.sym("n", 0, MAXL), c.sym("size", 0, MAXL), c.sym("to", 0, MAXL), c.sym("from", 0, MAXL)
    m = block(c, "memory", cap, False)
    if case == "two objects":
        s = block(c, "source", n)
        k = ZERO
        # the order of two objects in memory is unspecified
    else:
        s = m
        c.assume(cap - k - n)
        c.assume(k - i if case == "downwards" else i - k - 1)
    c.assume(cap - i - n)
    c.run(Ptr(m, i), Ptr(s, k), n)
    for ex in c.exits:
        returns(c, ex, Ptr(m, i))
        c.seq(LC, "the bytes arrive as they were", ex, m, i, i + n, s, k - i)
        c.seq(LC, "nothing below the destination changes", ex, m, ZERO, i, m, ZERO)
        c.seq(LC, "nothing above the destination changes", ex, m, i + n, cap, m, ZERO)


def memset(w):
    c = Case(w, "ZYAN_MEMSET", "any", LC)
    n, cap = c.sym("n", 0, MAXL), c.sym("capacity", 0, MAXL)
    d = block(c, "destination", cap, False)
    c.assume(cap - n)
    ci, b = char_arg(c)
    c.run(Ptr(d), ci, n)
    for ex in c.exits:
        returns(c, ex, Ptr(d))
        c.seq(LC, "every byte is set", ex, d, ZERO, n, lambda u, p: b, ZERO)
        c.seq(LC, "nothing behind the set bytes changes", ex, d, n, cap, d, ZERO)


def strcpy(w, fn):
    lim = fn != "ZYAN_STRCPY"
    for case in (("shorter than the limit", "not shorter") if lim else ("any",)):
        c = Case(w, fn, case, LC)
        s, l = cstring(c, "source")
        cap = c.sym("capacity", 0, MAXL)
        d = block(c, "destination", cap, False)
        n = c.sym("n", 0, MAXL) if lim else None
        short = case != "not shorter"
        if lim:
            c.assume(n - l - 1 if short else l - n)
        xfrm = fn == "ZYAN_STRXFRM"
        top = n if lim and not xfrm else l + 1        # bytes written
        if xfrm and not short:
            top = n                                     # contents unspecified, but nothing beyond n
        c.assume(cap - top)
        c.run(*([Ptr(d), Ptr(s)] + ([n] if lim else [])))
        for ex in c.exits:
            if xfrm:
                c.prove_eq(LC, "the length of the transformed string is returned", ex, ex.ret, l)
            else:
                returns(c, ex, Ptr(d))
            if short or not xfrm:
                c.seq(LC, "the characters are copied", ex, d, ZERO, l if short else n, s, ZERO)
            if short:
                c.seq(LC, "the copy is terminated%s" % (" and padded" if lim and not xfrm else ""), ex, d, l, top, zeros, ZERO)
            c.seq(LC, "nothing behind the copy changes", ex, d, top, cap, d, ZERO)


def strcat(w, fn):
    lim = fn == "ZYAN_STRNCAT"
    for case in (("shorter than the limit", "not shorter") if lim else ("any",)):
        c = Case(w, fn, case, LC)
        s, l = cstring(c, "source")
        cap = c.sym("capacity", 0, MAXL)
        d, k = cstring(c, "destination", cap, False)
        n = c.sym("n", 0, MAXL) if lim else None
        short = case != "not shorter"
        if lim:
            c.assume(n - l - 1 if short else l - n)
        add = l if short else n
        c.assume(cap - k - add - 1)
        c.run(*([Ptr(d), Ptr(s)] + ([n] if lim else [])))
        for ex in c.exits:
            returns(c, ex, Ptr(d))
            c.seq(LC, "the old characters stay", ex, d, ZERO, k, d, ZERO)
            c.seq(LC, "the new characters follow", ex, d, k, k + add, s, -k)
            c.seq(LC, "the result is terminated", ex, d, k + add, k + add + 1, zeros, ZERO)
            c.seq(LC, "nothing behind the terminator changes", ex, d, k + add + 1, cap, d, ZERO)


# ---------------------------------------------------------------- character sets
def member(I, st, r, v):
    """[(state, is the character v in the string r)]; the terminator is"""
    if v.const() == 0:
        return [(st, True)]
    out = []
    if I.unroll:
        # refutation: short sets, character by character
        for n in range(I.unroll + 1):
            u = st.assume_eq(r.chars - n)
            todo = [u] if u else []
            for i in range(n + 1):
                nx = []
                for x in todo:
                    for y, b in I.initial(x, r, K(i), 1, False):
                        e, d = y.split_eq(b - v)
                        if e:
                            out.append((e, True))
                        if d:
                            nx.append(d)
                todo = nx
            out += [(x, False) for x in todo]
        return out
    z, nz = st.split_eq(v) if not st.entails(v - 1) else (None, st)
    if z:
        out.append((z, True))
    if nz:
        m = V(term("member", (r, v), 0, 1))
        for t in nz.split(m - 1):
            if t is not None:
                out.append((t, t.entails(m - 1)))
    return out


def same_members(t):
    """equal characters have equal membership"""
    ats = [V(ATOMS[a]) for a in sorted({a for c in t.cons for a in c.atoms()}) if ATOMS[a].kind == "member"]
    for i in range(len(ats)):
        for j in range(i):
            x, y = ats[i].single(), ats[j].single()
            if t is not None and x is not y and x.args[0] is y.args[0] and t.entails_eq(x.args[1] - y.args[1]):
                t = t.assume_eq(ats[i] - ats[j])
    return t


def m_strchr(I, st, inst, a):
    out = []
    for t, r, o in I.addr(st, a[0], ONE, inst, False, "strchr"):
        for u, c in low_byte(I, t, a[1]):
            for v, yes in member(I, u, r, c):
                v = v.fork()
                f = I.fresh("strchr", 0, MAXL)
                out.append((v, Ptr(r, f) if yes else NULLP))
    return out


def low_byte(I, st, v):
    for lo in (0, INT - 256):
        if st.entails(v - lo) and st.entails(K(lo + 255) - v):
            return [(st, v - lo)]
    t, q, r = I.divmod(st, v, 256)
    return [(t, r)] if t else []


def used(w, stubs):
    """helpers are replaced by their contracts (which have tasks of their own), except when looking for a counterexample"""
    return {} if w.unroll else stubs


MODELS = {"ZYAN_STRCHR": m_strchr}


def span(w, fn):
    want = fn == "ZYAN_STRSPN"           # characters to pass
    c = Case(w, fn, "any", LC, stubs=used(w, MODELS))
    (s, l), (k, _) = cstring(c, "s"), cstring(c, "set")
    c.run(Ptr(s), Ptr(k))
    for ex in c.exits:
        if fn == "ZYAN_STRPBRK":
            f = pointer(c, ex, s)
            none = f is None
            f = l if none else f
        else:
            f, none = ex.ret, None
            if not isinstance(f, P):
                c.require(LC, "a length is returned", ex, False, repr(f))
                continue

        def stops(u, q, inv=False):
            """states in which the character at q ends the span (or, inverted, does not)"""
            out = []
            for t, v in byte(c, u, s, q):
                for x, yes in ([(t, not want)] if v.const() == 0 else member(c.I, t, k, v)):
                    x = same_members(x)
                    if x is not None and ((yes != want) != inv):
                        out.append(x)
            return out
        c.prove(LC, "the span lies inside the string", ex, l - f)
        forall(c, ex, "every character passed belongs to the span", ZERO, f, [s], stops)
        ends = "no character of the set is passed over" if none else "the span ends at the first other character or the terminator"
        t = ex.st.assume(l - f)
        if none or t is None:
            c.ob(LC, ends, "ok")
            continue
        if none is None:
            t = t.assume(l - 1 - f)
        sts = [x for x in (stops(t, f, True) if t else ()) if not infeasible(x.cons)]
        if not sts:
            c.ob(LC, ends, "ok")
        for x in sts[:1]:
            r = c.reach(x)
            c.ob(LC, ends, r[0], "%s%s" % (r[1], c.pathinfo(ex)))


# ---------------------------------------------------------------- substrings
def equal_at(I, st, a, i, b, n):
    """[(state, do n bytes at a+i equal those at b)]"""
    if st.entails(-n):
        return [(st, True)]
    if I.unroll:
        out = []
        for k in range(I.unroll + 1):
            u = st.assume_eq(n - k)
            todo = [u] if u else []
            for j in range(k):
                nx = []
                for x in todo:
                    x = x.assume(a.chars - i - j)          # behind the terminator there is nothing to compare
                    for y, p in I.initial(x, a, i + j, 1, False) if x else ():
                        for z, q in I.initial(y, b, K(j), 1, False):
                            e, d = z.split_eq(p - q)
                            if e:
                                nx.append(e)
                            if d:
                                out.append((d, False))
                todo = nx
            out += [(x, True) for x in todo]
        return out
    m = V(term("memeq", (a, i, b, n), 0, 1))
    return [(t, t.entails(m - 1)) for t in st.split(m - 1) if t is not None]


def m_memcmp(I, st, inst, a):
    """stops at the first difference, so only the bytes up to there have to exist"""
    out = []
    for t, r, o in I.addr(st, a[0], ZERO, inst, False, "memcmp"):
        for u, r2, o2 in I.addr(t, a[1], ZERO, inst, False, "memcmp"):
            if not u.entails_eq(o2):
                raise Imprecise("memcmp inside the needle")
            for v, yes in equal_at(I, u, r, o, r2, a[2]):
                if yes:
                    out.append((v, ZERO))
                else:
                    x = V(term("memcmp", (r, o, r2, a[2]), 1, INT - 1))
                    out.append((v, x))
    return out


def strstr_small(w, sl, nl):
    """refutation only: strings of a fixed length, compared character by character"""
    c = Case(w, "ZYAN_STRSTR", "%d characters, needle of %d" % (sl, nl), LC)
    (s, l), (k, n) = cstring(c, "s"), cstring(c, "needle")
    for x, y in ((l, sl), (n, nl)):
        c.assume(x - y)
        c.assume(K(y) - x)
    c.I.unroll_limit = sl + nl + 2
    c.run(Ptr(s), Ptr(k))

    def same(st, p, q):
        a, b = c.initial(st, s, K(p + q)), c.initial(st, k, K(q))
        return st.assume_eq(a - b), [t for t in (st.assume(a - b - 1), st.assume(b - a - 1)) if t]
    for ex in c.exits:
        f = pointer(c, ex, s)
        at = None if f is None else f.const()
        if f is not None and at is None:
            continue
        for p in range(sl - nl + 1):
            if at is not None and p > at:
                break
            t = ex.st
            for q in range(nl):
                e, ne = same(t, p, q)
                if p == at:
                    for u in ne:
                        c.require(LC, "the result is an occurrence", Exit(u, ex.ret), False, "character %d" % q)
                t = e
                if t is None:
                    break
            if t is not None and p != at:
                c.require(LC, "no occurrence is passed", Exit(t, ex.ret), False, "position %d" % p)


def strstr(w):
    if w.unroll >= 3:
        for a, b in ((2, 1), (3, 2), (4, 3)):
            strstr_small(w, a, b)
    c = Case(w, "ZYAN_STRSTR", "any", LC, stubs=used(w, {"ZYAN_STRLEN": m_strlen, "ZYAN_MEMCMP": m_memcmp}))
    (s, l), (k, n) = cstring(c, "s"), cstring(c, "needle")
    c.run(Ptr(s), Ptr(k))
    for ex in c.exits:
        f = pointer(c, ex, s)

        def found(u, q):
            return [t for t, yes in equal_at(c.I, u, s, q, k, n) if yes]
        if f is None:
            # a needle cannot start at the terminator unless it is empty
            forall(c, ex, "NULL is returned only if the needle does not occur", ZERO, l, [s], found)
            c.prove(LC, "an empty needle is found in every string", ex, n - 1)
            continue
        c.prove(LC, "the result lies inside the string", ex, f)
        c.prove(LC, "the result lies inside the string", ex, l - f)
        for t, yes in equal_at(c.I, ex.st, s, f, k, n):
            c.require(LC, "the result is an occurrence", Exit(t, ex.ret), yes)
        forall(c, ex, "no occurrence lies before the result", ZERO, f, [s], found)


# ---------------------------------------------------------------- tokens
def first(I, st, r, o, k, want):
    """length of the span of (non-)members of k that starts at o: [(state, length)]"""
    n = V(term("span", (r, o, k, want), 0, MAXL))
    st = st.assume(r.term - o - n)
    out = []
    for t in st.split_eq(r.term - o - n) if st else ():
        if t is None:
            continue
        if t.entails_eq(r.term - o - n):
            out.append((t, n))
            continue
        t = t.assume(r.term - o - n - 1)
        for u, v in I.initial(t, r, o + n, 1, False) if t else ():
            out += [(same_members(x), n) for x, yes in member(I, u, k, v) if yes != want]
    res = []
    for t, n in out:
        if t is None:
            continue
        # the first character decides whether the span is empty
        for u in t.split(r.term - o - 1):
            if u is None:
                continue
            if not u.entails(r.term - o - 1):
                u = u.assume_eq(n)
                res += [(u, n)] if u else []
                continue
            for x, v in I.initial(u, r, o, 1, False):
                for y, yes in member(I, x, k, v):
                    y = same_members(y)
                    y = y and (y.assume(n - 1) if yes == want else y.assume_eq(n))
                    y = y and closure(y, [r])
                    y = y and same_members(y)
                    if y is not None and not infeasible(y.cons):
                        res.append((y, n))
    return res


def m_span(want):
    def m(I, st, inst, a):
        out = []
        for t, r, o in I.addr(st, a[0], ONE, inst, False, "strspn"):
            for u, k, o2 in I.addr(t, a[1], ONE, inst, False, "strspn"):
                if r.term is None or k.chars is None or not u.entails_eq(o2):
                    raise Imprecise("span of something else than a whole string")
                out += first(I, u, r, o, k, want)
        return out
    return m


def strtok(w, case):
    c = Case(w, "ZYAN_STRTOK", case, LC, stubs=used(w, {"ZYAN_STRSPN": m_span(True), "ZYAN_STRCSPN": m_span(False)}))
    statics = [g.name for g in w.m.globals.values() if g.name.startswith("ZYAN_STRTOK.") and not g.const]
    if len(statics) != 1:
        raise Imprecise("the saved position is not a single variable")
    pos = c.I.global_region(statics[0])
    cap = c.sym("capacity", 0, MAXL + 1)
    (s, l), (k, kl) = cstring(c, "s", cap, False), cstring(c, "delimiters")
    c.assume(cap - l - 1)
    o = ZERO
    if case == "first call":
        c.st.setcell(pos, 0, 8, Ptr(c.region("old position", None, maybe_null=True)))
        arg = Ptr(s)
    else:
        if case == "next call":
            o = c.sym("position", 0, MAXL)
            c.assume(l - o)
        c.st.setcell(pos, 0, 8, NULLP if case == "after the last token" else Ptr(s, o))
        arg = NULLP
    c.run(arg, Ptr(k))
    for ex in c.exits:
        cell = ex.st.getcell(pos, 0)
        saved = cell[1] if cell else None
        f = pointer(c, ex, s)
        if case == "after the last token":
            c.require(LC, "no token follows the last one", ex, f is None, repr(ex.ret))
            c.seq(LC, "the string is left alone", ex, s, ZERO, cap, s, ZERO)
            c.prove_eq(LC, "the end is remembered", ex, saved, NULLP)
            continue
        states = split_at(c, ex.st, s, o, k, True)
        if f is None:
            for t, n in states:
                c.prove_eq(LC, "NULL is returned only if nothing but delimiters is left", Exit(t, ex.ret), o + n, l)
            c.seq(LC, "the string is left alone", ex, s, ZERO, cap, s, ZERO)
            c.prove_eq(LC, "the end is remembered", ex, saved, NULLP)
            continue
        for t, n in states:
            c.prove_eq(LC, "the token starts behind the delimiters", Exit(t, ex.ret), f, o + n)
            c.prove(LC, "the token is not empty", Exit(t, ex.ret), l - 1 - f)
            for u, m in split_at(c, t, s, o + n, k, False):
                x = Exit(u, ex.ret)
                e = o + n + m
                for y in u.split(l - e - 1):
                    if y is None:
                        continue
                    z = Exit(y, ex.ret)
                    c.seq(LC, "the token's characters stay", z, s, ZERO, e, s, ZERO)
                    c.seq(LC, "everything behind the token stays", z, s, e + 1, cap, s, ZERO)
                    c.seq(LC, "the token is terminated", z, s, e, e + 1, zeros, ZERO)
                    if y.entails(l - e - 1):
                        c.prove_eq(LC, "the search goes on behind the token", z, saved, Ptr(s, e + 1))
                    else:
                        c.prove_eq(LC, "the end is remembered", z, saved, NULLP)


def split_at(c, st, s, o, k, want):
    """length of the span at o; in a refutation it is found character by character"""
    if not c.w.unroll:
        return [(t, n) for t, n in first(c.I, st, s, o, k, want)]
    out, todo = [], [st]
    for i in range(2 * c.w.unroll + 1):
        nx = []
        for t in todo:
            e, d = t.split_eq(s.term - o - i)
            if e:
                out.append((e, K(i)))
            d = d and d.assume(s.term - o - i - 1)
            for u, v in byte(c, d, s, o + i) if d else ():
                for x, yes in member(c.I, u, k, v):
                    x = closure(x, [s, k])
                    if x is None or infeasible(x.cons):
                        continue
                    if yes == want:
                        nx.append(x)
                    else:
                        out.append((x, K(i)))
        todo = nx[:40]
    return out


L300 = b"a" * 300
# calls with more characters than a narrow counter can count: function, arguments (bytes: an object of its own), result, contents afterwards
LONG = (
    ("ZYAN_STRLEN", (L300 + b"\0",), 300, None),
    ("ZYAN_STRLEN", (b"a" * 65539 + b"\0",), 65539, None),
    ("ZYAN_STRSPN", (b"a" * 65539 + b"\0", b"a\0"), 65539, None),
    ("ZYAN_STRCSPN", (b"a" * 65539 + b"\0", b"b\0"), 65539, None),
    ("ZYAN_MEMCMP", (b"a" * 65539 + b"b", b"a" * 65539 + b"c", 65540), "<", None),
    ("ZYAN_STRCHR", (L300 + b"b\0", 98), (0, 300), None),
    ("ZYAN_STRCHR", (L300 + b"b\0", 0), (0, 301), None),
    ("ZYAN_STRCHR", (L300 + b"b\0", 99), None, None),
    ("ZYAN_STRRCHR", (L300 + b"b\0", 98), (0, 300), None),
    ("ZYAN_STRRCHR", (b"b" + L300 + b"\0", 98), (0, 0), None),
    ("ZYAN_MEMCHR", (L300 + b"b", 98, 301), (0, 300), None),
    ("ZYAN_MEMCHR", (L300 + b"b", 98, 300), None, None),
    ("ZYAN_MEMCMP", (L300 + b"b", L300 + b"c", 301), "<", None),
    ("ZYAN_MEMCMP", (L300 + b"b", L300 + b"c", 300), 0, None),
    ("ZYAN_STRCMP", (L300 + b"b\0", L300 + b"c\0"), "<", None),
    ("ZYAN_STRCMP", (L300 + b"b\0", L300 + b"\0"), ">", None),
    ("ZYAN_STRCMP", (L300 + b"\0", L300 + b"\0"), 0, None),
    ("ZYAN_STRCOLL", (L300 + b"c\0", L300 + b"b\0"), ">", None),
    ("ZYAN_STRNCMP", (L300 + b"c\0", L300 + b"b\0", 301), ">", None),
    ("ZYAN_STRNCMP", (L300 + b"c\0", L300 + b"b\0", 300), 0, None),
    ("ZYAN_STRSPN", (L300 + b"b\0", b"a\0"), 300, None),
    ("ZYAN_STRCSPN", (L300 + b"b\0", b"cb\0"), 300, None),
    ("ZYAN_STRCSPN", (b"ab\0", b"c" * 300 + b"b\0"), 1, None),
    ("ZYAN_STRPBRK", (L300 + b"b\0", b"cb\0"), (0, 300), None),
    ("ZYAN_STRSTR", (L300 + b"bc\0", b"bc\0"), (0, 300), None),
    ("ZYAN_STRSTR", (L300 + b"\0", b"bc\0"), None, None),
    ("ZYAN_MEMCPY", (b"-" * 302, L300 + b"b", 301), (0, 0), L300 + b"b-"),
    ("ZYAN_MEMMOVE", (b"-" * 302, L300 + b"b", 301), (0, 0), L300 + b"b-"),
    ("ZYAN_MEMSET", (b"-" * 301, 97, 300), (0, 0), L300 + b"-"),
    ("ZYAN_STRCPY", (b"-" * 303, L300 + b"b\0"), (0, 0), L300 + b"b\0-"),
    ("ZYAN_STRNCPY", (b"-" * 303, L300 + b"b\0", 302), (0, 0), L300 + b"b\0-"),
    ("ZYAN_STRNCPY", (b"-" * 303, b"b\0", 302), (0, 0), b"b" + b"\0" * 301 + b"-"),
    ("ZYAN_STRNCPY", (b"-" * 303, L300 + b"b\0", 260), (0, 0), L300[:260] + b"-" * 43),
    ("ZYAN_STRCAT", (b"a\0" + b"-" * 301, L300 + b"\0"), (0, 0), b"a" + L300 + b"\0-"),
    ("ZYAN_STRCAT", (L300 + b"\0--", b"b\0"), (0, 0), L300 + b"b\0-"),
    ("ZYAN_STRNCAT", (b"a\0" + b"-" * 301, L300 + b"\0", 300), (0, 0), b"a" + L300 + b"\0-"),
    ("ZYAN_STRNCAT", (b"a\0" + b"-" * 301, L300 + b"\0", 258), (0, 0), L300[:259] + b"\0" + b"-" * 43),
    ("ZYAN_STRXFRM", (b"-" * 303, L300 + b"b\0", 302), 301, L300 + b"b\0-"),
)


def long_(w, part, parts):
    """what only shows when there is much to count"""
    if w.unroll:
        return
    for k, (fn, args, want, after) in enumerate(LONG):
        if k % parts != part:
            continue
        c = Case(w, fn, "%s%s" % (",".join("%d bytes" % len(a) if isinstance(a, bytes) else str(a) for a in args), " #%d" % k), LC)
        c.I.unroll_limit, c.I.BUDGET = 70000, 10 ** 6
        regs, vals = [], []
        for i, a in enumerate(args):
            if isinstance(a, bytes):
                r = block(c, "object %d" % (i + 1), K(len(a)), i > 0 or after is None)
                r.bytes = a
                regs.append(r)
                vals.append(Ptr(r))
            else:
                vals.append(K(a))
        c.run(*vals)
        for ex in c.exits:
            if want is None or isinstance(want, tuple):
                c.require(LC, "the result is the place in the object", ex, ex.ret == (NULLP if want is None else Ptr(regs[want[0]], K(want[1]))), repr(ex.ret))
            elif isinstance(want, int):
                c.prove_eq(LC, "the result is the number", ex, ex.ret, K(want))
            else:
                v = ex.ret.const() if isinstance(ex.ret, P) else None
                c.require(LC, "the sign of the result is the order", ex, v is not None and (0 < v < INT // 2 if want == ">" else v >= INT // 2 or v < 0), repr(ex.ret))
            if after is not None:
                bad = [o for o, b in enumerate(after) for t, v in c.I.read(ex.st, regs[0], K(o), 1, False) if not t.entails_eq(v - b)]
                c.require(LC, "the object holds what it should", ex, not bad, "byte %s" % bad[:1])


def tasks(prop=None):
    T = [(strlen,)] + [(chr_, f) for f in ("ZYAN_STRCHR", "ZYAN_STRRCHR", "ZYAN_MEMCHR")]
    T += [(cmp_, f) for f in ("ZYAN_MEMCMP", "ZYAN_STRCMP", "ZYAN_STRNCMP", "ZYAN_STRCOLL")]
    T += [(memcpy,), (memset,)] + [(memmove, k) for k in ("downwards", "upwards", "two objects")]
    T += [(strcpy, f) for f in ("ZYAN_STRCPY", "ZYAN_STRNCPY", "ZYAN_STRXFRM")] + [(strcat, f) for f in ("ZYAN_STRCAT", "ZYAN_STRNCAT")]
    T += [(span, f) for f in ("ZYAN_STRSPN", "ZYAN_STRCSPN", "ZYAN_STRPBRK")] + [(strstr,)]
    T += [(strtok, k) for k in ("first call", "next call", "after the last token")]
    return T + [(long_, k, 4) for k in range(4)]
