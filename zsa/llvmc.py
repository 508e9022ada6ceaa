"""Load an LLVM bitcode/IR module into plain Python objects through the LLVM-C API.

Only the resolved program is looked at: functions, basic blocks, instructions,
types with their layout, and debug locations (for reports)."""
import ctypes as C
import ctypes.util

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for cand in ("libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
                 "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM.so.18.1"):
        try:
            _L = C.CDLL(cand)
            break
        except OSError:
            continue
    if _L is None:
        raise RuntimeError("libLLVM-18 not found")
    P, U, I, S = C.c_void_p, C.c_uint, C.c_int, C.c_char_p
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (I, [S, C.POINTER(P), C.POINTER(S)]),
        "LLVMParseIRInContext": (I, [P, P, C.POINTER(P), C.POINTER(S)]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (I, [P]),
        "LLVMGlobalGetValueType": (P, [P]),
        "LLVMGetValueName2": (S, [P, C.POINTER(C.c_size_t)]),
        "LLVMCountParams": (U, [P]), "LLVMGetParam": (P, [P, U]),
        "LLVMIsDeclaration": (I, [P]), "LLVMGetLinkage": (I, [P]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetBasicBlockName": (S, [P]), "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (I, [P]), "LLVMTypeOf": (P, [P]),
        "LLVMGetTypeKind": (I, [P]), "LLVMGetIntTypeWidth": (U, [P]),
        "LLVMCountStructElementTypes": (U, [P]), "LLVMStructGetTypeAtIndex": (P, [P, U]),
        "LLVMGetStructName": (S, [P]), "LLVMGetArrayLength": (U, [P]), "LLVMGetElementType": (P, [P]),
        "LLVMGetModuleDataLayout": (P, [P]), "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, U]),
        "LLVMGetNumOperands": (I, [P]), "LLVMGetOperand": (P, [P, U]),
        "LLVMGetICmpPredicate": (I, [P]), "LLVMGetFCmpPredicate": (I, [P]),
        "LLVMGetNumSuccessors": (U, [P]), "LLVMGetSuccessor": (P, [P, U]), "LLVMIsConditional": (I, [P]),
        "LLVMGetCondition": (P, [P]), "LLVMCountIncoming": (U, [P]), "LLVMGetIncomingValue": (P, [P, U]),
        "LLVMGetIncomingBlock": (P, [P, U]), "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (U, [P]),
        "LLVMGetGEPSourceElementType": (P, [P]), "LLVMGetAllocatedType": (P, [P]),
        "LLVMGetDebugLocLine": (U, [P]), "LLVMGetDebugLocFilename": (S, [P, C.POINTER(U)]),
        "LLVMGetValueKind": (I, [P]), "LLVMIsNull": (I, [P]), "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
        "LLVMGetConstOpcode": (I, [P]), "LLVMGetAtomicRMWBinOp": (I, [P]), "LLVMGetOrdering": (I, [P]),
        "LLVMGetCmpXchgSuccessOrdering": (I, [P]), "LLVMGetVolatile": (I, [P]),
        "LLVMGetNumIndices": (U, [P]), "LLVMGetIndices": (C.POINTER(U), [P]),
        "LLVMGetReturnType": (P, [P]), "LLVMIsFunctionVarArg": (I, [P]), "LLVMGetSwitchDefaultDest": (P, [P]),
        "LLVMIsConstantString": (I, [P]), "LLVMGetAsString": (S, [P, C.POINTER(C.c_size_t)]),
        "LLVMGetAggregateElement": (P, [P, U]), "LLVMGetInstructionParent": (P, [P]),
        "LLVMPrintValueToString": (S, [P]), "LLVMIsTailCall": (I, [P]),
        "LLVMConstIntGetSExtValue": (C.c_longlong, [P]),
        "LLVMGetCalledFunctionType": (P, [P]),
    }
    for n, (r, a) in sig.items():
        f = getattr(_L, n)
        f.restype, f.argtypes = r, a
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"]


class Type:
    __slots__ = ("kind", "width", "size", "elems", "offsets", "n", "name")

    def __init__(s, kind, size=0):
        s.kind, s.size, s.width, s.elems, s.offsets, s.n, s.name = kind, size, 0, None, None, 0, ""

    def __repr__(s):
        if s.kind == "int":
            return "i%d" % s.width
        if s.kind == "struct":
            return s.name or "{%s}" % ",".join(map(repr, s.elems))
        if s.kind == "array":
            return "[%d x %r]" % (s.n, s.elems)
        return s.kind


class CInt:
    __slots__ = ("v", "width")

    def __init__(s, v, w):
        s.v, s.width = v, w

    def __repr__(s):
        return "%d" % s.v


class CNull:
    def __repr__(s):
        return "null"


class CUndef:
    def __repr__(s):
        return "undef"


class CZero:
    def __repr__(s):
        return "zero"


class CGlobal:
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "@" + s.name


class CGep:
    __slots__ = ("base", "off")

    def __init__(s, b, o):
        s.base, s.off = b, o


class COther:
    __slots__ = ("text",)

    def __init__(s, t):
        s.text = t


class Arg:
    __slots__ = ("name", "idx", "type", "id")

    def __init__(s, name, idx, ty, id):
        s.name, s.idx, s.type, s.id = name, idx, ty, id

    def __repr__(s):
        return "%" + s.name


class Inst:
    __slots__ = ("op", "type", "ops", "id", "line", "file", "fn", "block", "x", "idx")

    def __repr__(s):
        return "%%%d=%s" % (s.id, s.op)


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "fn", "idx")

    def __repr__(s):
        return "bb%d" % s.idx


class Func:
    __slots__ = ("name", "args", "blocks", "ret", "decl", "linkage", "vararg", "line", "file", "loops", "_h")


class Global:
    __slots__ = ("name", "type", "init", "const")


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf, err, mod = C.c_void_p(), C.c_char_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tcache = {}
        self.functions = {}
        self.globals = {}
        self.nid = 0
        f = L.LLVMGetFirstFunction(mod)
        handles = []
        while f:
            handles.append(f)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            G = Global()
            G.name = self.name(g)
            G.type = self.ty(L.LLVMGlobalGetValueType(g))
            ini = L.LLVMGetInitializer(g)
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.init = self.cinit(ini, G.type) if ini else None
            self.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        for h in handles:
            F = self.func(h)
            self.functions[F.name] = F

    def name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s[:n.value].decode() if s else ""

    def ty(self, t):
        if t in self.tcache:
            return self.tcache[t]
        L = self.L
        k = L.LLVMGetTypeKind(t)
        if k == 8:
            r = Type("int")
            r.width = L.LLVMGetIntTypeWidth(t)
            r.size = (r.width + 7) // 8
        elif k == 10:
            r = Type("struct")
            self.tcache[t] = r
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else ""
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.size = L.LLVMABISizeOfType(self.dl, t) if n else 0
                r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.size, r.offsets = 0, []
        elif k == 11:
            r = Type("array")
            r.n = L.LLVMGetArrayLength(t)
            r.elems = self.ty(L.LLVMGetElementType(t))
            r.size = r.n * r.elems.size
        elif k == 12:
            r = Type("ptr", 8)
        elif k == 0:
            r = Type("void", 0)
        elif k == 2:
            r = Type("float", 4)
        elif k == 3:
            r = Type("double", 8)
        else:
            r = Type("other%d" % k, 0)
        self.tcache[t] = r
        return r

    def cinit(self, v, t):
        """constant initializer -> nested python: int / list / CGlobal / None(zero) / bytes"""
        L = self.L
        if L.LLVMGetValueKind(v) in (16, 17) and L.LLVMIsConstantString(v):      # the query is undefined for other kinds of constants
            n = C.c_size_t()
            p = L.LLVMGetAsString
            p.restype = C.c_void_p
            a = p(v, C.byref(n))
            p.restype = C.c_char_p
            return C.string_at(a, n.value)
        c = self.const(v)
        if isinstance(c, (CInt, CNull, CZero, CGlobal, CGep)):
            if isinstance(c, CInt):
                return c
            return c
        if t.kind == "struct":
            return [self.cinit(L.LLVMGetAggregateElement(v, i), t.elems[i]) for i in range(len(t.elems))]
        if t.kind == "array":
            return [self.cinit(L.LLVMGetAggregateElement(v, i), t.elems) for i in range(t.n)]
        return c

    def const(self, v):
        L = self.L
        k = L.LLVMGetValueKind(v)
        # 5 Function 6 GlobalAlias 8 GlobalVariable 10 ConstantExpr  17 Undef 18 Zero 20.. see Core.h
        if k in (5, 8, 6):
            return CGlobal(self.name(v))
        if k == 18 or k == 25:
            t = self.ty(L.LLVMTypeOf(v))
            if t.kind == "int":
                return CInt(L.LLVMConstIntGetZExtValue(v) & ((1 << t.width) - 1), t.width)
        t = self.ty(L.LLVMTypeOf(v))
        if t.kind == "int" and k == 18:
            return CInt(L.LLVMConstIntGetZExtValue(v), t.width)
        if k == 20:
            return CNull()
        txt = None
        if L.LLVMIsNull(v):
            return CNull() if t.kind == "ptr" else (CInt(0, t.width) if t.kind == "int" else CZero())
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = self.const(L.LLVMGetOperand(v, 0))
                off, var = self.gep_off(v)
                if not var:
                    if isinstance(base, CGep):
                        return CGep(base.base, base.off + off)
                    return CGep(base, off)
            if op in ("bitcast", "addrspacecast"):
                return self.const(L.LLVMGetOperand(v, 0))
        txt = L.LLVMPrintValueToString(v).decode()
        if "undef" in txt.split() or "poison" in txt.split():
            return CUndef()
        return COther(txt)

    def gep_off(self, v):
        L = self.L
        n = L.LLVMGetNumOperands(v)
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        off, var = 0, []
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            ci = self.isconstint(o)
            if i == 1:
                scale, nt = t.size, t
            elif t.kind == "struct":
                off += t.offsets[ci]
                t = t.elems[ci]
                continue
            else:
                nt = t.elems
                scale = nt.size
            if ci is not None:
                off += ci * scale
            else:
                var.append((o, scale))
            t = nt
        return off, var

    def isconstint(self, v):
        L = self.L
        t = self.ty(L.LLVMTypeOf(v))
        if t.kind != "int":
            return None
        k = L.LLVMGetValueKind(v)
        if k == 18 or L.LLVMIsNull(v):
            if k == 18 or k not in (0, 4):
                return L.LLVMConstIntGetSExtValue(v)
        return None

    def func(self, h):
        L = self.L
        F = Func()
        F.name = self.name(h)
        F.decl = bool(L.LLVMIsDeclaration(h))
        F.linkage = L.LLVMGetLinkage(h)
        fty = L.LLVMGlobalGetValueType(h)
        F.ret = self.ty(L.LLVMGetReturnType(fty))
        F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        F.args = []
        F.loops = None
        F._h = {}
        F.line = L.LLVMGetDebugLocLine(h)
        n = C.c_uint()
        fn = L.LLVMGetDebugLocFilename(h, C.byref(n))
        F.file = fn[:n.value].decode() if fn else ""
        vmap = {}
        for i in range(L.LLVMCountParams(h)):
            p = L.LLVMGetParam(h, i)
            a = Arg(self.name(p), i, self.ty(L.LLVMTypeOf(p)), self.nid)
            self.nid += 1
            F.args.append(a)
            vmap[p] = a
        F.blocks = []
        if F.decl:
            return F
        bmap = {}
        hb = L.LLVMGetFirstBasicBlock(h)
        hbs = []
        while hb:
            B = Block()
            B.name = L.LLVMGetBasicBlockName(hb).decode()
            B.insts, B.succs, B.preds, B.fn, B.idx = [], [], [], F, len(hbs)
            bmap[hb] = B
            hbs.append(hb)
            F.blocks.append(B)
            hb = L.LLVMGetNextBasicBlock(hb)
        raw = []
        for hb in hbs:
            B = bmap[hb]
            hi = L.LLVMGetFirstInstruction(hb)
            while hi:
                I = Inst()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(hi), "?")
                I.type = self.ty(L.LLVMTypeOf(hi))
                I.id = self.nid
                self.nid += 1
                I.line = L.LLVMGetDebugLocLine(hi)
                fn = L.LLVMGetDebugLocFilename(hi, C.byref(n))
                I.file = fn[:n.value].decode() if fn else ""
                I.fn, I.block, I.x, I.ops = F, B, None, []
                vmap[hi] = I
                raw.append((hi, I))
                B.insts.append(I)
                I.idx = len(B.insts) - 1
                hi = L.LLVMGetNextInstruction(hi)

        def val(v):
            if v in vmap:
                return vmap[v]
            return self.const(v)
        for hi, I in raw:
            op = I.op
            B = I.block
            if op == "br":
                B.succs = [bmap[L.LLVMGetSuccessor(hi, i)] for i in range(L.LLVMGetNumSuccessors(hi))]
                I.ops = [val(L.LLVMGetCondition(hi))] if L.LLVMIsConditional(hi) else []
            elif op == "switch":
                nops = L.LLVMGetNumOperands(hi)
                I.ops = [val(L.LLVMGetOperand(hi, 0))]
                B.succs = [bmap[L.LLVMGetSuccessor(hi, i)] for i in range(L.LLVMGetNumSuccessors(hi))]
                # successors: default first, then the cases
                I.x = [val(L.LLVMGetOperand(hi, i)).v for i in range(2, nops, 2)]
            elif op == "phi":
                I.x = [(bmap[L.LLVMGetIncomingBlock(hi, i)], val(L.LLVMGetIncomingValue(hi, i)))
                       for i in range(L.LLVMCountIncoming(hi))]
            elif op == "call":
                cv = L.LLVMGetCalledValue(hi)
                I.x = val(cv)
                if isinstance(I.x, COther):
                    I.x = CGlobal("<asm>") if " asm " in I.x.text else I.x
                I.ops = []
                for i in range(L.LLVMGetNumArgOperands(hi)):
                    o = L.LLVMGetOperand(hi, i)
                    if L.LLVMGetValueKind(o) in (22, 26) or self.ty(L.LLVMTypeOf(o)).kind.startswith("other"):
                        I.ops.append(COther("metadata"))
                    else:
                        I.ops.append(val(o))
            elif op == "gep":
                off, var = self.gep_off(hi)
                I.ops = [val(L.LLVMGetOperand(hi, 0))]
                I.x = (off, [(val(o), s) for o, s in var])
            else:
                I.ops = [val(L.LLVMGetOperand(hi, i)) for i in range(L.LLVMGetNumOperands(hi))]
                if op == "icmp":
                    I.x = ICMP[L.LLVMGetICmpPredicate(hi)]
                elif op == "alloca":
                    I.x = self.ty(L.LLVMGetAllocatedType(hi))
                elif op == "atomicrmw":
                    I.x = (RMW[L.LLVMGetAtomicRMWBinOp(hi)], L.LLVMGetOrdering(hi))
                elif op == "cmpxchg":
                    I.x = (L.LLVMGetCmpXchgSuccessOrdering(hi), bool(L.LLVMGetVolatile(hi)))
                elif op in ("extractvalue", "insertvalue"):
                    k = L.LLVMGetNumIndices(hi)
                    ix = L.LLVMGetIndices(hi)
                    I.x = [ix[j] for j in range(k)]
                elif op == "store":
                    I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(hi, 0)))
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)
        return F


def natural_loops(F):
    """header -> set(blocks) of its natural loop (merged over latches)."""
    if F.loops is not None:
        return F.loops
    n = len(F.blocks)
    # iterative dominators
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(b.succs))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(F.blocks[0])
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in b.preds if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                a, c = x, p
                while a is not c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                x = a
            if idom.get(b) is not x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in x.preds if p in num)
    F.loops = loops
    return loops
