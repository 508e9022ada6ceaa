"""The formatting functions as compiled on 32-bit targets: 32-bit fast paths and the dispatch between both widths."""
from .contracts_format import *
from . import contracts_format as F

CONFIG = "fmt32"
SERVES = ["F0[13]"]


def tasks(prop=None):
    T = []
    for base, k in ((10, "Dec"), (16, "Hex")):
        for d in range(1, (10 if base == 10 else 8) + 1):
            for dyn in (True, False):
                T.append((F.unsigned, "ZyanStringAppend%sU32" % k, base, d, dyn, 32))
        for d in (1, 8, 9, 10, 11, 16, 20):
            if d <= (20 if base == 10 else 16):
                T.append((F.unsigned, "ZyanStringAppend%sU" % k, base, d, False))
        T.append((F.signed, "ZyanStringAppend%sS" % k, base, 3, False, True, True, True))
    T.append((nulls32,))
    return T


def nulls32(w):
    for fn, args in (("ZyanStringAppendDecU32", (NULLP, K(1), K(0))), ("ZyanStringAppendHexU32", (NULLP, K(1), K(0), K(0)))):
        c = Case(w, fn, "NULL string", MEM)
        c.run(*args)
        for ex in c.exits:
            c.require(ATOM, "a NULL string is rejected", ex, c.isstatus(ex, "INVALID_ARGUMENT"), repr(ex.ret))
