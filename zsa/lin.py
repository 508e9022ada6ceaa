"""Numeric abstract domain: integer polynomials over interned symbolic atoms and
conjunctions of polynomial inequalities (P >= 0), with exact entailment.

Entailment is that of the convex-polyhedra domain over the monomials (an exact
rational simplex), strengthened with products of constraints by non-negative
atoms so that bounds such as (size+count)*element_size <= capacity*element_size
are derivable.  It is sound: `entails` returning True is a proof."""
from fractions import Fraction
from math import gcd

U64 = (1 << 64) - 1


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "kind", "args", "imprecise", "info")

    def __repr__(s):
        return s.name


ATOMS = []
_intern = {}


def reset():
    ATOMS.clear()
    _intern.clear()
    _cache.clear()


def atom(name, lo=0, hi=U64, kind="sym", args=None, imprecise=False, info=None):
    a = Atom()
    a.id, a.name, a.lo, a.hi, a.kind, a.args, a.imprecise, a.info = len(ATOMS), name, lo, hi, kind, args, imprecise, info
    ATOMS.append(a)
    return a


def term(kind, args, lo, hi, name=None, imprecise=False):
    """interned structured atom; args may contain P, ints, strings, atoms, regions"""
    key = (kind, args)
    a = _intern.get(key)
    if a is None:
        a = atom(name or None, lo, hi, kind, args, imprecise)
        if name is None:
            a.name = "%s(%s)" % (kind, ",".join(str(x) for x in args))
        _intern[key] = a
    return a


class P:
    __slots__ = ("t", "_h", "_at")

    def __init__(s, t):
        s.t = t
        s._h = None
        s._at = None

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.t.items()))
        return s._h

    def __eq__(s, o):
        return isinstance(o, P) and s.t == o.t

    def __ne__(s, o):
        return not s == o

    def __add__(s, o):
        if isinstance(o, int):
            if o == 0:
                return s
            t = dict(s.t)
            v = t.get((), 0) + o
            if v:
                t[()] = v
            else:
                t.pop((), None)
            return P(t)
        t = dict(s.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(s):
        return P({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if isinstance(o, int):
            return P({m: c * o for m, c in s.t.items()}) if o else ZERO
        if len(o.t) == 0 or len(s.t) == 0:
            return ZERO
        t = {}
        for m, c in s.t.items():
            for m2, c2 in o.t.items():
                mm = m + m2
                if m and m2:
                    mm = tuple(sorted(mm))
                v = t.get(mm, 0) + c * c2
                if v:
                    t[mm] = v
                else:
                    t.pop(mm, None)
        return P(t)

    __rmul__ = __mul__

    def const(s):
        """int if constant else None"""
        if not s.t:
            return 0
        if len(s.t) == 1 and () in s.t:
            return s.t[()]
        return None

    def atoms(s):
        if s._at is None:
            s._at = frozenset(a for m in s.t for a in m)
        return s._at

    def single(s):
        """Atom if the poly is exactly one atom with coefficient 1"""
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1:
                return ATOMS[m[0]]
        return None

    def lb(s):
        """interval lower bound or None"""
        r = 0
        for m, c in s.t.items():
            if not m:
                r += c
                continue
            lo, hi = mono_range(m)
            b = lo if c > 0 else hi
            if b is None:
                return None
            r += c * b
        return r

    def ub(s):
        v = (-s).lb()
        return None if v is None else -v

    def __repr__(s):
        if not s.t:
            return "0"
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]) == 0, x[0])):
            n = "*".join(ATOMS[a].name for a in m)
            cs = _fmt(abs(c))
            body = cs if not m else (n if abs(c) == 1 else cs + "*" + n)
            out.append(("-" if c < 0 else "+") + body)
        r = " ".join(out)
        return r[1:] if r[0] == "+" else r


def _fmt(c):
    for e in (64, 63, 32, 31):
        if c == 1 << e:
            return "2^%d" % e
        if c == (1 << e) - 1:
            return "(2^%d-1)" % e
    return str(c)


ZERO = P({})
ONE = P({(): 1})


def K(c):
    return P({(): c}) if c else ZERO


def V(a):
    return P({(a.id,): 1})


_mr = {}


def mono_range(m):
    if len(m) == 1:
        a = ATOMS[m[0]]
        return a.lo, a.hi
    lo, hi = 1, 1
    for i in m:
        a = ATOMS[i]
        if a.lo is None or a.lo < 0:
            return None, None
        lo *= a.lo
        hi = None if (hi is None or a.hi is None) else hi * a.hi
    return lo, hi


def subst(p, mp):
    """substitute atoms (by id) with P; structured atoms are rebuilt"""
    if not p.t:
        return p
    r = ZERO
    ch = False
    res = {}
    for a in p.atoms():
        n = subst_atom(a, mp)
        if n is not None:
            res[a] = n
            ch = True
    if not ch:
        return p
    for m, c in p.t.items():
        t = K(c)
        for a in m:
            t = t * (res[a] if a in res else P({(a,): 1}))
        r = r + t
    return r


_dep = {}


def subst_atom(aid, mp):
    if aid in mp:
        return mp[aid]
    A = ATOMS[aid]
    if A.args is None:
        return None
    ch = False
    na = []
    for x in A.args:
        if isinstance(x, P):
            y = subst(x, mp)
            if y is not x and y != x:
                ch = True
            na.append(y)
        elif isinstance(x, Atom):
            y = subst_atom(x.id, mp)
            if y is not None:
                ch = True
                na.append(y)
            else:
                na.append(x)
        else:
            na.append(x)
    if not ch:
        return None
    return V(term(A.kind, tuple(na), A.lo, A.hi, imprecise=A.imprecise))


def deep_atoms(p, seen=None):
    """all atoms of p including those inside structured atoms"""
    seen = set() if seen is None else seen
    st = list(p.atoms())
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        A = ATOMS[a]
        if A.args:
            for x in A.args:
                if isinstance(x, P):
                    st.extend(x.atoms())
                elif isinstance(x, Atom):
                    st.append(x.id)
    return seen


# ----------------------------------------------------------------- constraints
def norm(p):
    """divide by the gcd of the non-constant coefficients (integer tightening)"""
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
            if g == 1:
                return p
    if g <= 1:
        return p
    t = {}
    for m, c in p.t.items():
        t[m] = c // g  # floor
    if () in t and t[()] == 0:
        del t[()]
    return P(t)


_cache = {}
STATS = {"q": 0, "lp": 0, "quick": 0, "hit": 0}


def relevant(cons, e):
    """constraints connected to e through shared atoms"""
    need = set(e.atoms())
    out = []
    rest = list(cons)
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for c in rest:
            if c.atoms() & need:
                out.append(c)
                if not c.atoms() <= need:
                    need |= c.atoms()
                ch = True
            else:
                nr.append(c)
        rest = nr
    return out


def entails(cons, e):
    """True if every integer point of cons satisfies e >= 0"""
    STATS["q"] += 1
    c = e.const()
    if c is not None:
        if c >= 0:
            return True
        # infeasible state?
        return infeasible(cons)
    e = norm(e)
    l = e.lb()
    if l is not None and l >= 0:
        return True
    rel = relevant(cons, e)
    for c in rel:
        d = e - c
        l = d.lb()
        if l is not None and l >= 0:
            STATS["quick"] += 1
            return True
    key = (frozenset(rel), e)
    r = _cache.get(key)
    if r is not None:
        STATS["hit"] += 1
        return r
    r = _lp_infeasible(rel + [-e - 1])
    _cache[key] = r
    return r


def infeasible(cons):
    key = (frozenset(cons), None)
    r = _cache.get(key)
    if r is None:
        r = _lp_infeasible(list(cons))
        _cache[key] = r
    return r


def _products(cons):
    """RLT: add products of linear constraints with nonneg atoms for monomials of degree >= 2"""
    monos = set()
    for c in cons:
        for m in c.t:
            if len(m) >= 2:
                monos.add(m)
    if not monos:
        return cons
    out = list(cons)
    have = set(cons)
    for m in list(monos):
        if len(m) == 3:
            monos |= {(m[0], m[1]), (m[0], m[2]), (m[1], m[2])}

    def add(p):
        p = norm(p)
        if p not in have and p.const() is None:
            have.add(p)
            out.append(p)
    base = [c for c in cons if max((len(m) for m in c.t), default=0) <= 1]
    done = set()
    for rnd in range(2):
        pairs = set()
        for m in monos:
            for i in set(m):
                rest = list(m)
                rest.remove(i)
                pairs.add((i, tuple(rest)))
        newm = set()
        for i, rest in pairs:
            A = ATOMS[i]
            if A.lo is None:
                continue
            # multiply by (A - lo) >= 0 every linear constraint over `rest`-like atoms
            if len(rest) != 1:
                # degree 3: bounds only
                continue
            y = P({(i,): 1})
            f = y - A.lo if A.lo else y
            X = ATOMS[rest[0]]
            x = P({(rest[0],): 1})
            if X.lo is not None and ((i, rest[0], 'll') not in done):
                done.add((i, rest[0], 'll'))
                add(f * (x - X.lo))
            if X.hi is not None and X.hi < (1 << 33) and ((i, rest[0], 'lh') not in done):
                done.add((i, rest[0], 'lh'))
                add(f * (X.hi - x))
            for c in base:
                if rest[0] in c.atoms() and (i not in c.atoms() or len(c.t) <= 2):
                    if (i, c) in done:
                        continue
                    done.add((i, c))
                    q = f * c
                    add(q)
                    for m in q.t:
                        if len(m) >= 2 and m not in monos:
                            newm.add(m)
        if not newm or rnd == 1:
            break
        monos |= newm
        if len(monos) > 40:
            break
    # degree-3 monomials x*y*z: multiply degree-2 constraints by a factor (atom - lo)
    m3 = [m for m in monos if len(m) == 3]
    if m3:
        base2 = [c for c in out if max((len(m) for m in c.t), default=0) == 2]
        for m in m3[:10]:
            fs = []
            for i in m:
                A = ATOMS[i]
                if A.lo is None:
                    fs = None
                    break
                fs.append(P({(i,): 1}) - A.lo if A.lo else P({(i,): 1}))
            if fs:
                add(fs[0] * fs[1] * fs[2])
            for i in set(m):
                A = ATOMS[i]
                if A.lo is None or A.lo < 0:
                    continue
                r = list(m)
                r.remove(i)
                r = tuple(r)
                f = P({(i,): 1})
                for c in base2:
                    if r in c.t and len(out) < 240:
                        add(c * f)
                        if A.lo:
                            add(c * (f - A.lo))
    return out


def _lp_infeasible(cons):
    STATS["lp"] += 1
    cons = [norm(c) for c in cons]
    for c in cons:
        k = c.const()
        if k is not None and k < 0:
            return True
        u = c.ub()
        if u is not None and u < 0:
            return True
    # bound propagation on linear constraints, integer rounding
    cons = [c for c in cons if c.const() is None]
    cons = _products(list(dict.fromkeys(cons)))
    bnds = {}
    for c in cons:
        for m in c.t:
            if m and m not in bnds:
                bnds[m] = list(mono_range(m))
    r = _propagate(cons, bnds)
    if r:
        return True
    return not Simplex(cons, bnds).feasible()


def _propagate(cons, bnds, rounds=3):
    for _ in range(rounds):
        ch = False
        for c in cons:
            # sum a_i m_i + k >= 0 ; tighten each m_i
            tot = c.t.get((), 0)
            inf = 0
            infm = None
            for m, a in c.t.items():
                if not m:
                    continue
                lo, hi = bnds[m]
                b = hi if a > 0 else lo
                if b is None:
                    inf += 1
                    infm = m
                    if inf > 1:
                        break
                else:
                    tot += a * b
            if inf > 1:
                continue
            for m, a in c.t.items():
                if not m or (inf == 1 and m != infm):
                    continue
                lo, hi = bnds[m]
                b = hi if a > 0 else lo
                rest = tot - (a * b if b is not None else 0)
                # a*m >= -rest
                if a > 0:
                    v = -(rest // a)  # ceil(-rest/a)
                    if lo is None or v > lo:
                        bnds[m][0] = v
                        ch = True
                else:
                    v = rest // (-a)
                    if hi is None or v < hi:
                        bnds[m][1] = v
                        ch = True
                lo, hi = bnds[m]
                if lo is not None and hi is not None and lo > hi:
                    return True
        if not ch:
            break
    return False


class Simplex:
    """Exact general simplex (bounds + slack rows), integer rows."""

    def __init__(s, cons, bnds):
        s.idx = {}
        s.lo, s.hi = [], []
        for m, (lo, hi) in bnds.items():
            s.idx[m] = len(s.lo)
            s.lo.append(lo)
            s.hi.append(hi)
        s.n = len(s.lo)
        s.val = [Fraction(0)] * s.n
        for i in range(s.n):
            if s.lo[i] is not None and s.lo[i] > 0:
                s.val[i] = Fraction(s.lo[i])
            elif s.hi[i] is not None and s.hi[i] < 0:
                s.val[i] = Fraction(s.hi[i])
            elif s.lo[i] is not None:
                s.val[i] = Fraction(s.lo[i])
        s.rows = {}  # basic var -> (den, {var: coef})   den*basic = sum coef*var
        merged = {}
        for c in cons:
            # sum >= -k ; merge opposite pairs
            k = c.t.get((), 0)
            vec = {s.idx[m]: a for m, a in c.t.items() if m}
            if len(vec) == 1:
                continue  # captured by propagated bounds
            key = tuple(sorted(vec.items()))
            nkey = tuple((i, -a) for i, a in key)
            if nkey in merged:
                r = merged[nkey]
                if s.hi[r] is None or k < s.hi[r]:
                    s.hi[r] = k
                continue
            if key in merged:
                r = merged[key]
                if s.lo[r] is None or -k > s.lo[r]:
                    s.lo[r] = -k
                continue
            r = len(s.lo)
            s.lo.append(-k)
            s.hi.append(None)
            s.val.append(sum(a * s.val[i] for i, a in vec.items()) + Fraction(0))
            s.rows[r] = (1, vec)
            merged[key] = r

    def feasible(s):
        it = 0
        lo, hi, val, rows = s.lo, s.hi, s.val, s.rows
        while True:
            it += 1
            if it > 400:
                return True  # give up: "feasible" is the sound answer
            b = None
            for r in sorted(rows):
                v = val[r]
                if lo[r] is not None and v < lo[r]:
                    b, up = r, True
                    break
                if hi[r] is not None and v > hi[r]:
                    b, up = r, False
                    break
            if b is None:
                return True
            if lo[b] is not None and hi[b] is not None and lo[b] > hi[b]:
                return False
            den, row = rows[b]
            e = None
            for j in sorted(row):
                a = row[j]
                if (a > 0) == up:
                    if hi[j] is None or val[j] < hi[j]:
                        e = j
                        break
                else:
                    if lo[j] is None or val[j] > lo[j]:
                        e = j
                        break
            if e is None:
                return False
            target = lo[b] if up else hi[b]
            theta = (target - val[b]) * den / Fraction(row[e])
            val[b] = Fraction(target)
            val[e] += theta
            # pivot: den*b = ae*e + rest  =>  ae*e = den*b - rest
            ae = row.pop(e)
            del rows[b]
            new = {j: -a for j, a in row.items()}
            new[b] = den
            d = ae
            if d < 0:
                d = -d
                new = {j: -a for j, a in new.items()}
            g = d
            for a in new.values():
                g = gcd(g, a)
                if g == 1:
                    break
            if g > 1:
                d //= g
                new = {j: a // g for j, a in new.items()}
            for r in list(rows):
                dr, rr = rows[r]
                if e in rr:
                    c = rr.pop(e)
                    val[r] += theta * c / dr
                    # dr*r = rr + c*e,  e = new/d  -> dr*d*r = d*rr + c*new
                    nr = {j: a * d for j, a in rr.items()}
                    for j, a in new.items():
                        v = nr.get(j, 0) + c * a
                        if v:
                            nr[j] = v
                        else:
                            nr.pop(j, None)
                    nd = dr * d
                    g = nd
                    for a in nr.values():
                        g = gcd(g, a)
                        if g == 1:
                            break
                    if g > 1:
                        nd //= g
                        nr = {j: a // g for j, a in nr.items()}
                    rows[r] = (nd, nr)
            rows[e] = (d, new)


# ------------------------------------------------------------ concretisation
def witness(cons, first=(), diseq=(), budget=400):
    """Try to exhibit an integer point of the constraints (concretisation of the abstract state).
    Returns {atom: int} or None.  Used only to separate 'refuted' from 'undecided'."""
    cons = [norm(c) for c in cons]
    ids = []
    for c in cons:
        for a in c.atoms():
            if a not in ids:
                ids.append(a)
    for d in diseq:
        for a in d.atoms():
            if a not in ids:
                ids.append(a)
    deg = {}
    for c in cons:
        for m in c.t:
            if len(m) > 1:
                for a in m:
                    deg[a] = deg.get(a, 0) + 1
    fid = [a.id for a in first]
    # nonlinear atoms first (fixing them makes the rest linear)
    # functions of other atoms: equal arguments, equal values
    apps = [a for a in ids if ATOMS[a].args is not None and ATOMS[a].kind not in ("sym", "lv", "bit", "div", "mod", "tab")]
    inner = set()
    for a in apps:
        for x in ATOMS[a].args:
            if isinstance(x, P):
                inner |= set(x.atoms())
    if len(apps) < 2 or len(apps) > 12:
        apps, inner = [], set()
    # where the argument of a division passes the divisor (values cut to a narrower type)
    wrapat = {}
    for a in ids:
        A = ATOMS[a]
        if A.kind in ("div", "mod") and isinstance(A.args[1], int) and A.args[1] >= 256 and isinstance(A.args[0], P):
            k = A.args[0].t.get((), 0)
            for mono, c in A.args[0].t.items():
                if len(mono) == 1 and c > 0 and k < A.args[1]:
                    v = -((k - A.args[1]) // c)
                    w = wrapat.setdefault(mono[0], [])
                    w += [x for x in (v, v + 1, v + A.args[1] // c, v + A.args[1] // c + 1) if x not in w]
    ids.sort(key=lambda a: (a not in fid, -deg.get(a, 0), a not in inner, a))
    left = [budget]

    def same(asg, v):
        """equalities that hold because the arguments have got equal values"""
        out, seen = [], {}
        for a in sorted(apps, key=lambda a: v not in inner_of(a)):
            new = v in inner_of(a)
            if not new and not seen:
                break
            k = [ATOMS[a].kind]
            for x in ATOMS[a].args:
                if isinstance(x, P):
                    t = 0
                    for mono, c in x.t.items():
                        for b in mono:
                            if str(b) not in asg:
                                break
                            c *= asg[str(b)]
                        else:
                            t += c
                            continue
                        break
                    else:
                        k.append(t)
                        continue
                    break
                k.append(id(x) if not isinstance(x, int) else x)
            else:
                b = seen.setdefault(tuple(k), a) if new else seen.get(tuple(k), a)
                if b != a:
                    ca, cb = (K(asg[str(z)]) if str(z) in asg else V(ATOMS[z]) for z in (a, b))
                    out += [ca - cb, cb - ca]
        return out
    cache = {}

    def inner_of(a):
        if a not in cache:
            r = set()
            for x in ATOMS[a].args:
                if isinstance(x, P):
                    r |= set(x.atoms())
            cache[a] = r
        return cache[a]
    if _lp_infeasible(list(cons)):
        return None

    def go(cs, ds, i, asg):
        if left[0] <= 0:
            return None
        live = []
        for c in cs:
            k = c.const()
            if k is None:
                live.append(c)
            elif k < 0:
                return None
        for d in ds:
            if d.const() == 0:
                return None
        if i == len(ids):
            if live:
                return None
            left[0] -= 8
            m = {ATOMS[int(k)]: v for k, v in asg.items()}
            return m if congruent(m) else None
        a = ids[i]
        A = ATOMS[a]
        forced = functional(A, asg)
        bn = {}
        for c in live:
            for m in c.t:
                if m and m not in bn:
                    bn[m] = list(mono_range(m))
        bn.setdefault((a,), [A.lo, A.hi])
        if _propagate(live, bn, 6):
            return None
        lo, hi = bn[(a,)]
        cand = []
        for v in (forced,) if forced is not None else (lo, None if lo is None else lo + 1, 1, 2, 3, 0, 8, None if hi is None else hi, None if hi is None else hi - 1,
                  (lo + hi) // 2 if lo is not None and hi is not None else None, 1 << 63, 1 << 31, 16, -1, *wrapat.get(a, ())):
            if v is None or v in cand:
                continue
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                continue
            cand.append(v)
        for v in cand:
            left[0] -= 1
            if left[0] <= 0:
                return None
            mp = {a: K(v)}
            ncs = []
            bad = False
            for c in live:
                if a in c.atoms():
                    c = norm(_psub(c, a, v))
                    k = c.const()
                    if k is not None:
                        if k < 0:
                            bad = True
                            break
                        continue
                ncs.append(c)
            if bad:
                continue
            nds = [_psub(d, a, v) if a in d.atoms() else d for d in ds]
            if a in inner:
                ncs += [c for c in same(dict(asg, **{str(a): v}), a) if c.const() is None or c.const() < 0]
                if any(c.const() is not None for c in ncs):
                    continue
            if ncs and _lp_infeasible(list(ncs)):
                continue
            r = go(ncs, nds, i + 1, dict(asg, **{str(a): v}))
            if r is not None:
                return r
        return None
    return go(cons, list(diseq), 0, {})


def functional(A, asg):
    """value of a term whose meaning is known and whose arguments have their values"""
    if A.kind not in KNOWN or A.args is None:
        return None

    def ev(p):
        if isinstance(p, int):
            return p
        if not isinstance(p, P):
            return None
        t = 0
        for mono, c in p.t.items():
            for a in mono:
                if str(a) not in asg:
                    return None
                c *= asg[str(a)]
            t += c
        return t
    g = A.args
    if A.kind == "tab":
        t, b = ev(g[1]), g[0].bytes
        return None if t is None else b[t] if 0 <= t < len(b) else -1
    x = ev(g[0])
    if x is None:
        return None
    if A.kind in ("div", "mod", "bit"):
        d = g[1]
        if not isinstance(d, int):
            return None
        return (x >> d) & 1 if A.kind == "bit" else x // d if A.kind == "div" else x % d
    if A.kind in ("and", "or", "xor") and len(g) != 3:
        return None
    y = ev(g[1])
    if y is None:
        return None
    op = A.kind[1:] if A.kind[0] == "b" else A.kind
    return x & y if op == "and" else x | y if op == "or" else x ^ y


KNOWN = {"div", "mod", "tab", "bit", "and", "or", "xor", "band", "bor", "bxor"}


def congruent(m):
    """the same function applied to equal arguments must not have been given two values"""
    val = {a.id: v for a, v in m.items()}
    extra = [7919]

    def ev(x):
        if isinstance(x, P):
            t = 0
            for mono, c in x.t.items():
                for a in mono:
                    if a not in val:
                        extra[0] += 104729
                        val[a] = (ATOMS[a].lo or 0) + (extra[0] if (ATOMS[a].hi is None or ATOMS[a].hi > 1 << 40) else 0)
                    c *= val[a]
                t += c
            return t
        return x
    seen = {}
    for a, v in m.items():
        if a.args is None or a.kind in ("sym", "lv"):
            continue
        # operators whose meaning is known must have their true value
        g = a.args
        if a.kind in ("and", "or", "xor") and len(g) == 3:
            x, y = ev(g[0]), ev(g[1])
            if {"and": x & y, "or": x | y, "xor": x ^ y}[a.kind] != v:
                return False
        elif a.kind == "bit":
            if (ev(g[0]) >> g[1]) & 1 != v:
                return False
        elif a.kind == "tab":
            x = ev(g[1])
            if not (0 <= x < len(g[0].bytes)) or g[0].bytes[x] != v:
                return False
        elif a.kind in ("div", "mod") and isinstance(g[1], int):
            if (ev(g[0]) // g[1] if a.kind == "div" else ev(g[0]) % g[1]) != v:
                return False
        elif a.kind in ("band", "bor", "bxor"):
            x, y = ev(g[0]), ev(g[1])
            if {"band": x & y, "bor": x | y, "bxor": x ^ y}[a.kind] != v:
                return False
        if a.kind == "bit":
            continue
        key = (a.kind,) + tuple(ev(x) for x in a.args)
        if seen.setdefault(key, v) != v:
            return False
    return True


def _psub(p, a, v):
    t = {}
    for m, c in p.t.items():
        if a in m:
            n = m.count(a)
            m2 = tuple(x for x in m if x != a)
            c = c * v ** n
        else:
            m2 = m
        if c:
            s = t.get(m2, 0) + c
            if s:
                t[m2] = s
            else:
                t.pop(m2, None)
    return P(t)
