"""Contracts of the operating system wrappers: critical sections, threads and TLS, memory, process, terminal."""
from .world import *

SYN, THR, OSM = ("T01",), ("T02",), ("T03",)
SERVES = ["T0[123]"]


def oscalls(ex):
    return [e for e in ex.st.events() if isinstance(e, Ev) and e.kind == "os"]


def twice(c, *args, reset=None):
    """the exits of a call and of a second call made afterwards, possibly by another thread: whatever the first call
    left behind in static storage must not show"""
    c.run(*args)
    first = list(c.exits)
    for ex in first:
        yield ex
    if len(first) > 12:
        return
    name = c.name
    c.name = name + ", second call"
    for ex in first:
        c.I.gcache.pop("#thread", None)
        c.st = ex.st.fork()
        c.st.ev = None
        if reset:
            reset(c.st)
        c.run(*args)
        for x in c.exits:
            yield x
    c.name = name


def one(c, props, ex, name, args, what):
    """exactly one call of name, with the given arguments, and no other OS call"""
    evs = oscalls(ex)
    if name == "pthread_self" and all(e.name == name and e.ret == evs[0].ret for e in evs):
        evs = evs[:1]        # asking again gives the same answer
    ok = len(evs) == 1 and evs[0].name == name
    c.require(props, what, ex, ok, repr(evs))
    if not ok:
        return None
    for i, a in enumerate(args):
        c.prove_eq(props, "%s receives the given argument %d" % (name, i + 1), ex, evs[0].args[i], a)
    return evs[0]


def mapped(c, props, ex, ev, table):
    """the status tells why the OS call failed"""
    err = ev.ret
    if ex.st.entails_eq(err):
        c.require(props, "success is reported exactly if %s succeeded" % ev.name, ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        return
    if not ex.st.entails(err - 1):
        # both outcomes on one exit: the returned status cannot tell them apart
        for t in ex.st.split_eq(err):
            if t is not None:
                mapped(c, props, Exit(t, ex.ret), ev, table)
        return
    c.require(props, "a failure of %s is reported" % ev.name, ex, c.success(ex) is False, repr(ex.ret))
    rest = ex.st
    for e, status in table.items():
        a, rest = rest.split_eq(err - c.w.lay.val(e)) if rest is not None else (None, None)
        if a is not None:
            c.require(props, "%s of %s is reported as %s" % (e, ev.name, status), Exit(a, ex.ret), c.isstatus(ex, status), repr(ex.ret))
        if rest is None:
            return
    c.require(props, "any other error of %s is reported as BAD_SYSTEMCALL" % ev.name, Exit(rest, ex.ret), c.isstatus(ex, "BAD_SYSTEMCALL"), repr(ex.ret))


# ---------------------------------------------------------------- critical sections
def initialize(w):
    c = Case(w, "ZyanCriticalSectionInitialize", "any", SYN)
    cs = c.region("critical_section", K(w.lay.c["sizeof_mutex"]), "cells")
    for ex in twice(c, Ptr(cs)):
        evs = oscalls(ex)
        names = [e.name for e in evs]
        ini = [i for i, e in enumerate(evs) if e.name == "pthread_mutexattr_init"]
        mi = [i for i, e in enumerate(evs) if e.name == "pthread_mutex_init"]
        live = len(ini) == 1 and ex.st.entails_eq(evs[ini[0]].ret)
        des = [i for i, e in enumerate(evs) if e.name == "pthread_mutexattr_destroy"]
        c.require(SYN, "the mutex is initialised at most once", ex, len(mi) <= 1 and len(ini) <= 1, repr(names))
        if len(ini) == 1:
            c.require(SYN, "initialised attributes are destroyed exactly once", ex, len(des) == (1 if live else 0), repr(names))
        if not mi:
            c.require(SYN, "only failing to create the attributes prevents the initialisation", ex, len(ini) == 1 and not live, repr(names))
            if len(ini) == 1:
                mapped(c, SYN, ex, evs[ini[0]], {"ENOMEM": "NOT_ENOUGH_MEMORY"})
            continue
        e = evs[mi[0]]
        attr = e.args[1]
        c.prove_eq(SYN, "the given critical section is initialised", ex, e.args[0], Ptr(cs))
        before = evs[:mi[0]]
        st_ = [x for x in before if x.name == "pthread_mutexattr_settype" and x.args[0] == attr]
        c.require(SYN, "critical sections are recursive", ex, bool(st_) and isinstance(st_[-1].args[1], P) and st_[-1].args[1].const() == w.lay.val("PTHREAD_MUTEX_RECURSIVE"), repr(st_))
        c.require(SYN, "the attributes are valid while they are used", ex, live and ini[0] < mi[0] and evs[ini[0]].args[0] == attr and not any(i < mi[0] for i in des) and
                  all(evs[i].args[0] == attr for i in des), repr(names))
        mapped(c, SYN, ex, e, {"EAGAIN": "OUT_OF_RESOURCES", "ENOMEM": "NOT_ENOUGH_MEMORY", "EPERM": "ACCESS_DENIED", "EBUSY": "INVALID_ARGUMENT", "EINVAL": "INVALID_ARGUMENT"})


def section(w, fn, name, table):
    c = Case(w, fn, "any", SYN)
    cs = c.region("critical_section", K(w.lay.c["sizeof_mutex"]), "cells")
    for ex in twice(c, Ptr(cs)):
        e = one(c, SYN, ex, name, [Ptr(cs)], "%s is called once" % name)
        if e is None:
            continue
        if table is None:
            for t in ex.st.split_eq(e.ret):
                if t is not None:
                    c.prove_eq(SYN, "entering is reported exactly if the lock was taken", Exit(t, ex.ret), ex.ret, K(1 if t.entails_eq(e.ret) else 0))
        else:
            mapped(c, SYN, ex, e, table)


# ---------------------------------------------------------------- threads
def thread(w, fn, isid):
    c = Case(w, fn, "any", THR)
    out = c.out("thread")
    for ex in twice(c, Ptr(out)):
        e = one(c, THR, ex, "pthread_self", [], "the calling thread is asked for")
        c.require(THR, "the call succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        if e is not None:
            c.prove_eq(THR, "the %s of the calling thread is returned" % ("id" if isid else "handle"), ex, c.outval(ex, out), e.ret)


def tls_alloc(w, cb):
    c = Case(w, "ZyanThreadTlsAlloc", "destructor" if cb else "no destructor", THR)
    out = c.region("index", K(4), "cells")
    old = c.sym("old", 0, (1 << 32) - 1)
    c.st.setcell(out, 0, 4, old)
    d = Ptr(c.fnptr("destructor", None)) if cb else NULLP
    for ex in twice(c, Ptr(out), d, reset=lambda st: st.setcell(out, 0, 4, old)):
        evs = oscalls(ex)
        c.require(THR, "one key is created", ex, len(evs) == 1 and evs[0].name == "pthread_key_create", repr(evs))
        if len(evs) != 1 or evs[0].name != "pthread_key_create":
            continue
        e = evs[0]
        c.prove_eq(THR, "the destructor is registered", ex, e.args[1], d)
        mapped(c, THR, ex, e, {"EAGAIN": "OUT_OF_RESOURCES", "ENOMEM": "NOT_ENOUGH_MEMORY"})
        if c.success(ex):
            c.prove_eq(THR, "the index of the new slot is returned", ex, c.outval(ex, out), e.x)
        else:
            c.prove_eq(THR, "a failed call leaves the index alone", ex, c.outval(ex, out), old)


def tls_free(w):
    c = Case(w, "ZyanThreadTlsFree", "any", THR)
    i = c.sym("index", 0, (1 << 32) - 1)
    for ex in twice(c, i):
        e = one(c, THR, ex, "pthread_key_delete", [i], "the slot is released once")
        if e:
            mapped(c, THR, ex, e, {})


def tls_get(w):
    c = Case(w, "ZyanThreadTlsGetValue", "any", THR)
    i = c.sym("index", 0, (1 << 32) - 1)
    out = c.out("data")
    for ex in twice(c, i, Ptr(out)):
        e = one(c, THR, ex, "pthread_getspecific", [i], "the slot is read once")
        c.require(THR, "the call succeeds", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        if e:
            c.prove_eq(THR, "the value of the calling thread is returned", ex, c.outval(ex, out), e.ret)


def tls_set(w):
    c = Case(w, "ZyanThreadTlsSetValue", "any", THR)
    i = c.sym("index", 0, (1 << 32) - 1)
    d = Ptr(c.region("data", None, maybe_null=True))
    for ex in twice(c, i, d):
        e = one(c, THR, ex, "pthread_setspecific", [i, d], "the slot is written once")
        if e:
            mapped(c, THR, ex, e, {"EINVAL": "INVALID_ARGUMENT"})


# ---------------------------------------------------------------- memory, process, terminal
def page_size(w, fn):
    c = Case(w, fn, "any", OSM)
    c.run()
    for ex in c.exits:
        e = one(c, OSM, ex, "sysconf", [K(w.lay.val("_SC_PAGE_SIZE"))], "the page size is queried")
        if e:
            c.prove_eq(OSM, "the page size is returned", ex, ex.ret, e.ret)


def protect(w, prot, bits):
    c = Case(w, "ZyanMemoryVirtualProtect", prot, OSM)
    a, n = Ptr(c.region("pages", None)), c.sym("size")
    want = sum(w.lay.val("PROT_" + b) for b in bits)
    for ex in twice(c, a, n, K(w.lay.val("ZYAN_PAGE_" + prot))):
        e = one(c, OSM, ex, "mprotect", [a, n, K(want)], "the protection of the given range is changed once")
        if e:
            mapped(c, OSM, ex, e, {})


def unmap(w):
    c = Case(w, "ZyanMemoryVirtualFree", "any", OSM)
    a, n = Ptr(c.region("pages", None)), c.sym("size")
    for ex in twice(c, a, n):
        e = one(c, OSM, ex, "munmap", [a, n], "the given range is released once")
        if e:
            mapped(c, OSM, ex, e, {})


def flush(w):
    c = Case(w, "ZyanProcessFlushInstructionCache", "any", OSM)
    a, n = Ptr(c.region("code", None)), c.sym("size")
    for ex in twice(c, a, n):
        e = one(c, OSM, ex, "msync", [a, n], "the given range is synchronised once")
        if e:
            f = e.args[2]
            both = w.lay.val("MS_SYNC") | w.lay.val("MS_INVALIDATE")
            c.require(OSM, "cached copies are invalidated before the call returns", ex, isinstance(f, P) and f.const() is not None and f.const() & both == both, repr(f))
            mapped(c, OSM, ex, e, {})


def vt100(w, stream):
    c = Case(w, "ZyanTerminalEnableVT100", stream or "invalid stream", OSM)
    c.run(K(w.lay.val("ZYAN_STDSTREAM_" + stream)) if stream else c.sym("stream", 3, (1 << 32) - 1))
    for ex in c.exits:
        c.require(OSM, "no system call is made", ex, not oscalls(ex), repr(oscalls(ex)))
        if stream in ("OUT", "ERR"):
            c.require(OSM, "output streams support VT100", ex, c.isstatus(ex, "SUCCESS"), repr(ex.ret))
        else:
            c.require(OSM, "other streams are rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))


def tty(w, stream, fd):
    c = Case(w, "ZyanTerminalIsTTY", stream, OSM)
    for ex in twice(c, K(w.lay.val("ZYAN_STDSTREAM_" + stream))):
        e = one(c, OSM, ex, "isatty", [K(w.lay.val(fd))], "the descriptor of the stream is tested")
        if e is None:
            continue
        for t in ex.st.split_eq(e.ret):
            if t is None:
                continue
            x = Exit(t, ex.ret)
            if not t.entails_eq(e.ret):
                c.require(OSM, "a terminal is reported as such", x, c.isstatus(x, "TRUE"), repr(ex.ret))
                continue
            bad, oth = t.split_eq(e.x - w.lay.val("EBADF"))
            if bad is not None:
                c.require(OSM, "an invalid descriptor is reported as an error", Exit(bad, ex.ret), c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
            if oth is not None:
                c.require(OSM, "other streams are reported not to be a terminal", Exit(oth, ex.ret), c.isstatus(ex, "FALSE"), repr(ex.ret))


def tasks(prop=None):
    T = []
    if prop in (None, "T01"):
        T += [(initialize,), (section, "ZyanCriticalSectionEnter", "pthread_mutex_lock", {"EINVAL": "INVALID_ARGUMENT", "EAGAIN": "INVALID_OPERATION"}),
              (section, "ZyanCriticalSectionTryEnter", "pthread_mutex_trylock", None),
              (section, "ZyanCriticalSectionLeave", "pthread_mutex_unlock", {"EINVAL": "INVALID_ARGUMENT", "EPERM": "INVALID_OPERATION"}),
              (section, "ZyanCriticalSectionDelete", "pthread_mutex_destroy", {"EBUSY": "INVALID_ARGUMENT", "EINVAL": "INVALID_ARGUMENT"})]
    if prop in (None, "T02"):
        T += [(thread, "ZyanThreadGetCurrentThread", False), (thread, "ZyanThreadGetCurrentThreadId", True), (tls_alloc, True), (tls_alloc, False),
              (tls_free,), (tls_get,), (tls_set,)]
    if prop in (None, "T03"):
        T += [(page_size, "ZyanMemoryGetSystemPageSize"), (page_size, "ZyanMemoryGetSystemAllocationGranularity"), (unmap,), (flush,)]
        T += [(protect, p, b) for p, b in (("READONLY", ("READ",)), ("READWRITE", ("READ", "WRITE")), ("EXECUTE", ("EXEC",)), ("EXECUTE_READ", ("EXEC", "READ")),
                                           ("EXECUTE_READWRITE", ("EXEC", "READ", "WRITE")))]
        T += [(vt100, s) for s in ("IN", "OUT", "ERR", None)]
        T += [(tty, "IN", "STDIN_FILENO"), (tty, "OUT", "STDOUT_FILENO"), (tty, "ERR", "STDERR_FILENO")]
    return T
