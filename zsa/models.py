"""Models of the external (C library / OS) functions the sources call."""
from .lin import *
from .interp import Ptr, NULLP, NULLR, Region, UNDEF, W, Imprecise, Agg


def m_memcpy(I, st, inst, a):
    return [(t, a[0]) for t in I.memcpy(st, a[0], a[1], I.num(st, a[2], inst), inst, False)]


def m_memmove(I, st, inst, a):
    return [(t, a[0]) for t in I.memcpy(st, a[0], a[1], I.num(st, a[2], inst), inst, True)]


def m_memset(I, st, inst, a):
    v = I.num(st, a[1], inst)
    st2, q, r = I.divmod(st, v, 256)
    return [(t, a[0]) for t in I.memset(st2, a[0], r, I.num(st, a[2], inst), inst)]


def m_assert_fail(I, st, inst, a):
    txt = "?"
    if isinstance(a[0], Ptr) and a[0].r.bytes:
        txt = a[0].r.bytes.rstrip(b"\0").decode("latin1")
    I.issue("assert", "assertion '%s' can fail" % txt, st, inst)
    return []


def m_malloc(I, st, inst, a):
    n = I.num(st, a[0], inst)
    out = []
    f = st.fork()
    I.emit(f, "libc", "malloc", [n], NULLP, inst)
    out.append((f, NULLP))
    ok = st.assume(K((1 << 63) - 1) - n)
    if ok:
        ok = ok.fork()
        I.nfresh += 1
        r = Region("malloc#%d" % I.nfresh, n, mode="array", kind="heap")
        r.init_content = "uninit"
        I.regions[r.id] = r
        I.emit(ok, "libc", "malloc", [n], Ptr(r), inst)
        out.append((ok, Ptr(r)))
    return out


def m_calloc(I, st, inst, a):
    x, y = I.num(st, a[0], inst), I.num(st, a[1], inst)
    out = []
    f = st.fork()
    I.emit(f, "libc", "calloc", [x * y], NULLP, inst)
    out.append((f, NULLP))
    ok = st.assume(K((1 << 63) - 1) - x * y)
    if ok:
        ok = ok.fork()
        I.nfresh += 1
        r = Region("calloc#%d" % I.nfresh, x * y, mode="array", kind="heap")
        r.init_content = "zero"
        I.regions[r.id] = r
        I.emit(ok, "libc", "calloc", [x * y], Ptr(r), inst)
        out.append((ok, Ptr(r)))
    return out


def m_realloc(I, st, inst, a):
    n = I.num(st, a[1], inst)
    out = []
    f = st.fork()
    I.emit(f, "libc", "realloc", [a[0], n], NULLP, inst)
    out.append((f, NULLP))
    ok = st.assume(K((1 << 63) - 1) - n)
    if ok:
        ok = ok.fork()
        I.nfresh += 1
        r = Region("realloc#%d" % I.nfresh, n, mode="array", kind="heap")
        r.init_content = "uninit"
        I.regions[r.id] = r
        old = a[0]
        if isinstance(old, Ptr) and old.r is not NULLR:
            ok.logs[r.id] = (None, W("copy", K(0), old.r.size if old.r.size is not None else n, (old.r, K(0), ok.logs.get(old.r.id), None)))
            ok.freed = ok.freed | {old.r.id}
        I.emit(ok, "libc", "realloc", [a[0], n], Ptr(r), inst)
        out.append((ok, Ptr(r)))
    return out


def m_free(I, st, inst, a):
    st = st.fork()
    I.emit(st, "libc", "free", [a[0]], None, inst)
    if isinstance(a[0], Ptr) and a[0].r is not NULLR:
        if a[0].r.id in st.freed:
            I.issue("doublefree", "memory %s released twice" % a[0].r.name, st, inst)
        st.freed = st.freed | {a[0].r.id}
    return [(st, None)]


def m_strlen(I, st, inst, a):
    out = []
    for t, r, o in I.addr(st, a[0], K(1), inst, False, "strlen"):
        if r.bytes is not None and o.const() is not None:
            out.append((t, K(r.bytes.index(b"\0", o.const()) - o.const())))
        elif r.chars is not None and (t.entails(r.chars - o)):
            out.append((t, r.chars - o))
        else:
            n = V(term("strlen", (r, o), 0, (1 << 62)))
            if r.size is not None:
                t = t.assume(r.size - o - n - 1)
                if t is None:
                    continue
            out.append((t, n))
    return out


def _res(I, name, lo, hi):
    return I.fresh(name, lo, hi)


def m_cmp(name):
    def m(I, st, inst, a):
        # three-way result: -1,0,1 as i32
        st = st.fork()
        r = V(term("cmp3", (name,) + I.callid(), 0, (1 << 32) - 1))
        I.emit(st, "libc", name, a, r, inst)
        return [(st, r)]
    return m


def m_errno(I, st, inst, a):
    r = I.gcache.get("#errno")
    if r is None:
        r = Region("errno", K(4), kind="errno")
        I.gcache["#errno"] = r
    return [(st, Ptr(r))]


def m_isatty(I, st, inst, a):
    st = st.fork()
    r, e = I.fresh("isatty", 0, 1), I.fresh("errno", 1, 4095)
    I.emit(st, "os", "isatty", a, r, inst, x=e)
    # on 0 errno is set
    er = m_errno(I, st, inst, [])[0][1].r
    st.setcell(er, 0, 4, e)
    return [(st, r)]


def os_int(name, lo=None):
    """OS call returning 0 on success and non-zero (error number) on failure"""
    def m(I, st, inst, a):
        st = st.fork()
        r = I.fresh(name, 0, (1 << 31) - 1)
        I.emit(st, "os", name, a, r, inst)
        return [(st, r)]
    return m


def m_settype(I, st, inst, a):
    """fails only for an invalid type"""
    st = st.fork()
    ok = isinstance(a[1], P) and a[1].const() in (0, 1, 2)
    r = ZERO if ok else I.fresh("pthread_mutexattr_settype", 0, (1 << 31) - 1)
    I.emit(st, "os", "pthread_mutexattr_settype", a, r, inst)
    return [(st, r)]


def os_ok(name):
    """OS call that cannot fail on what it is used for"""
    def m(I, st, inst, a):
        st = st.fork()
        I.emit(st, "os", name, a, ZERO, inst)
        return [(st, ZERO)]
    return m


def os_call(name):
    """system call returning 0 on success; on failure -1, with the error number in errno"""
    def m(I, st, inst, a):
        out = []
        for r in (0, (1 << 32) - 1):
            t = st.fork()
            e = I.fresh("errno", 1, 4095) if r else None
            I.emit(t, "os", name, a, K(r), inst, x=e)
            if r:
                t.setcell(m_errno(I, t, inst, [])[0][1].r, 0, 4, e)
            out.append((t, K(r)))
        return out
    return m


def m_pthread_self(I, st, inst, a):
    st = st.fork()
    # the handle refers to the thread's control block, whose first member is (on glibc and musl) its own address
    r = I.gcache.get("#thread")
    if r is None:
        r = Region("thread control block", K(64), mode="cells", kind="opaque")
        r.readonly = True
        I.regions[r.id] = r
        I.gcache["#thread"] = r
    if st.getcell(r, 0) is None:
        st.setcell(r, 0, 8, Ptr(r))
    I.emit(st, "os", "pthread_self", a, Ptr(r), inst)
    return [(st, Ptr(r))]


def m_key_create(I, st, inst, a):
    f = st.fork()
    r = I.fresh("pthread_key_create", 1, (1 << 32) - 1)
    I.emit(f, "os", "pthread_key_create", a, r, inst)
    out = [(f, r)]
    key = I.fresh("key", 0, (1 << 32) - 1)
    for t in I.store(st, a[0], key, 4, inst):
        t = t.fork()
        I.emit(t, "os", "pthread_key_create", a, ZERO, inst, x=key)
        out.append((t, ZERO))
    return out


def m_getspecific(I, st, inst, a):
    st = st.fork()
    r = Region("tlsdata", None, mode="array", maybe_null=True, kind="opaque")
    I.regions[r.id] = r
    I.emit(st, "os", "pthread_getspecific", a, Ptr(r), inst)
    return [(st, Ptr(r))]


def m_sysconf(I, st, inst, a):
    st = st.fork()
    r = I.fresh("sysconf", 1, (1 << 31) - 1)
    I.emit(st, "os", "sysconf", a, r, inst)
    return [(st, r)]


# state of an argument list, kept in the list object itself
VA_FRESH, VA_SPENT, VA_ENDED = 1, 2, 3


def va_state(I, st, ap):
    if isinstance(ap, Ptr):
        c = st.getcell(ap.r, ap.o.const()) if ap.o.const() is not None else None
        if c is not None and c[0] == 24 and isinstance(c[1], P):
            return c[1].const()
        if ap.r.kind == "valist":
            return VA_FRESH
    return None


def va_set(I, st, ap, v):
    if isinstance(ap, Ptr) and ap.o.const() is not None:
        I.dropcells(st, ap.r, ap.o, K(24))
        st.setcell(ap.r, ap.o.const(), 24, K(v))


def m_va(name):
    def m(I, st, inst, a):
        st = st.fork()
        x = None
        if name == "va_start":
            va_set(I, st, a[0], VA_FRESH)
        elif name == "va_end":
            va_set(I, st, a[0], VA_ENDED)
        else:
            x = va_state(I, st, a[1])
            va_set(I, st, a[0], x or VA_SPENT)
            if x not in (VA_FRESH, None):
                I.issue("valist", "argument list copied after it was used up", st, inst)
        I.emit(st, "va", name, a, None, inst)
        return [(st, None)]
    return m


def m_vsnprintf(I, st, inst, a):
    """(buf, size, fmt, ap): returns w<0 on error else length; writes min(w+1,size) bytes, NUL-terminated"""
    buf, n, fmt, ap = a[:4]
    n = I.num(st, n, inst)
    out = []
    st = st.fork()
    vs = va_state(I, st, ap)
    I.site("valist", inst, "the argument list is used once after it was started")
    if vs in (VA_SPENT, VA_ENDED):
        I.issue("valist", "the argument list is used after it was %s" % ("ended" if vs == VA_ENDED else "used up by an earlier call"), st, inst)
    va_set(I, st, ap, VA_SPENT)
    fk = (fmt.r, fmt.o) if isinstance(fmt, Ptr) else ("fmt", 0)
    text = ("fmt",) + fk if vs == VA_FRESH else ("fmt", "stale") + I.callid()
    neg = st.fork()
    r = I.fresh("vsn_err", 1 << 31, (1 << 32) - 1)
    I.emit(neg, "va", "vsnprintf", [buf, n, fmt, ap], r, inst)
    # on error the buffer content is unspecified
    z, nz = neg.split(n - 1)
    if nz:
        out.append((nz, r))
    if z:
        for t, rg, o in I.addr(z, buf, n, inst, True, "vsnprintf output"):
            t = t.fork()
            I.range_write(t, "opaque", rg, o, n, K(0), ("vsnerr",) + I.callid())
            out.append((t, r))
    w = V(term("vsnlen", fk, 0, (1 << 31) - 1)) if vs == VA_FRESH else I.fresh("vsnlen", 0, (1 << 31) - 1)
    ok = st.fork()
    I.emit(ok, "va", "vsnprintf", [buf, n, fmt, ap], w, inst)
    z, nz = ok.split(n - 1)
    if nz:
        out.append((nz, w))
    if z:
        fit, trunc = z.split(n - 1 - w)
        for t, ln in ((fit, w), (trunc, n - 1)):
            if t is None:
                continue
            for u, rg, o in I.addr(t, buf, ln + 1, inst, True, "vsnprintf output"):
                u = u.fork()
                I.range_write(u, "opaque", rg, o, ln, K(0), text)
                I.range_write(u, "set", rg, o + ln, K(1), K(0))
                out.append((u, w))
    return out


def m_umul(I, st, inst, a):
    x, y = I.num(st, a[0], inst), I.num(st, a[1], inst)
    e = x * y
    p, q = st.split(K(U64) - e)
    out = []
    if p:
        out.append((p, Agg([e, K(0)])))
    if q:
        out.append((q, Agg([I.fresh("ovf", 0, U64, imprecise=True), K(1)])))
    return out


def m_uadd(I, st, inst, a):
    e = I.num(st, a[0], inst) + I.num(st, a[1], inst)
    p, q = st.split(K(U64) - e)
    out = []
    if p:
        out.append((p, Agg([e, K(0)])))
    if q:
        out.append((q, Agg([e - (1 << 64), K(1)])))
    return out


def m_usub(I, st, inst, a):
    e = I.num(st, a[0], inst) - I.num(st, a[1], inst)
    p, q = st.split(e)
    out = []
    if p:
        out.append((p, Agg([e, K(0)])))
    if q:
        out.append((q, Agg([e + (1 << 64), K(1)])))
    return out


def m_expect(I, st, inst, a):
    return [(st, a[0])]


def m_minmax(kind):
    def m(I, st, inst, a):
        x, y = I.num(st, a[0], inst), I.num(st, a[1], inst)
        p, q = st.split(x - y)   # x>=y
        if kind == "umin":
            return [(t, v) for t, v in ((p, y), (q, x)) if t]
        return [(t, v) for t, v in ((p, x), (q, y)) if t]
    return m


def m_ctpop(I, st, inst, a):
    v = I.num(st, a[0], inst)
    u = v.ub()
    if u is None or u >= 1 << 16:
        return [(st, I.fresh("ctpop", 0, 64, imprecise=True))]
    st, bl = I.bits(st, v, max(u.bit_length(), 1))
    return [(st, sum(bl, ZERO))] if st is not None else []


def m_scalar(hi):
    """an intrinsic function of numbers whose value is not needed"""
    def m(I, st, inst, a):
        return [(st, I.fresh("intrinsic", 0, hi, imprecise=True))]
    return m


EXTERNAL = {
    "llvm.ctpop*": m_ctpop, "llvm.cttz*": m_scalar(64), "llvm.ctlz*": m_scalar(64), "llvm.bswap.i64": m_scalar(U64), "llvm.bswap.i32": m_scalar((1 << 32) - 1),
    "llvm.bswap.i16": m_scalar((1 << 16) - 1),
    "llvm.memcpy*": m_memcpy, "memcpy": m_memcpy, "llvm.memmove*": m_memmove, "memmove": m_memmove,
    "llvm.memset*": m_memset, "memset": m_memset, "__assert_fail": m_assert_fail,
    "malloc": m_malloc, "realloc": m_realloc, "calloc": m_calloc, "free": m_free, "strlen": m_strlen,
    "memcmp": m_cmp("memcmp"), "strcmp": m_cmp("strcmp"), "strncmp": m_cmp("strncmp"),
    "__errno_location": m_errno, "isatty": m_isatty,
    "pthread_mutexattr_init": os_int("pthread_mutexattr_init"),
    "pthread_mutexattr_settype": m_settype,
    "pthread_mutexattr_destroy": os_ok("pthread_mutexattr_destroy"),
    "pthread_mutex_init": os_int("pthread_mutex_init"),
    "pthread_mutex_lock": os_int("pthread_mutex_lock"),
    "pthread_mutex_trylock": os_int("pthread_mutex_trylock"),
    "pthread_mutex_unlock": os_int("pthread_mutex_unlock"),
    "pthread_mutex_destroy": os_int("pthread_mutex_destroy"),
    "pthread_key_create": m_key_create,
    "pthread_key_delete": os_int("pthread_key_delete"),
    "pthread_setspecific": os_int("pthread_setspecific"),
    "pthread_getspecific": m_getspecific, "pthread_self": m_pthread_self,
    "sysconf": m_sysconf, "mprotect": os_call("mprotect"), "munmap": os_call("munmap"), "msync": os_call("msync"),
    "llvm.va_start*": m_va("va_start"), "llvm.va_end*": m_va("va_end"), "llvm.va_copy*": m_va("va_copy"),
    "vsnprintf": m_vsnprintf,
    "llvm.umul.with.overflow*": m_umul, "llvm.uadd.with.overflow*": m_uadd, "llvm.usub.with.overflow*": m_usub,
    "llvm.expect*": m_expect, "llvm.umin*": m_minmax("umin"), "llvm.umax*": m_minmax("umax"),
}
