"""Loads LLVM IR (text or bitcode) into plain Python objects through libLLVM's C API."""
import ctypes as C
import itertools
from expr import mix

_sn = itertools.count(1)

_L = C.CDLL("libLLVM-18.so.1" if False else "/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = args
    return f


cs, u, i64, b, sz = C.c_char_p, C.c_uint, C.c_longlong, C.c_int, C.c_size_t
CtxCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", b, cs, C.POINTER(P), C.POINTER(cs))
ParseIR = _f("LLVMParseIRInContext", b, P, P, C.POINTER(P), C.POINTER(cs))
FirstFn = _f("LLVMGetFirstFunction", P, P); NextFn = _f("LLVMGetNextFunction", P, P)
FirstGV = _f("LLVMGetFirstGlobal", P, P); NextGV = _f("LLVMGetNextGlobal", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P); NextI = _f("LLVMGetNextInstruction", P, P)
FirstArg = _f("LLVMGetFirstParam", P, P); NextArg = _f("LLVMGetNextParam", P, P)
ValName = _f("LLVMGetValueName2", P, P, C.POINTER(sz))
Opcode = _f("LLVMGetInstructionOpcode", b, P)
NumOps = _f("LLVMGetNumOperands", b, P); Op = _f("LLVMGetOperand", P, P, u)
TypeOf = _f("LLVMTypeOf", P, P); TypeKind = _f("LLVMGetTypeKind", b, P)
PrintType = _f("LLVMPrintTypeToString", P, P); DisposeMsg = _f("LLVMDisposeMessage", None, P)
PrintVal = _f("LLVMPrintValueToString", P, P)
ValueKind = _f("LLVMGetValueKind", b, P)
IntW = _f("LLVMGetIntTypeWidth", u, P)
ConstS = _f("LLVMConstIntGetSExtValue", i64, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(b))
ICmp = _f("LLVMGetICmpPredicate", b, P); FCmp = _f("LLVMGetFCmpPredicate", b, P)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P); AllocaTy = _f("LLVMGetAllocatedType", P, P)
CountInc = _f("LLVMCountIncoming", u, P); IncV = _f("LLVMGetIncomingValue", P, P, u); IncB = _f("LLVMGetIncomingBlock", P, P, u)
IsDecl = _f("LLVMIsDeclaration", b, P)
Linkage = _f("LLVMGetLinkage", b, P); IsConstG = _f("LLVMIsGlobalConstant", b, P)
GInit = _f("LLVMGetInitializer", P, P); GValTy = _f("LLVMGlobalGetValueType", P, P)
Called = _f("LLVMGetCalledValue", P, P); NumArgs = _f("LLVMGetNumArgOperands", u, P)
NumMask = _f("LLVMGetNumMaskElements", u, P); MaskV = _f("LLVMGetMaskValue", b, P, u)
NumIdx = _f("LLVMGetNumIndices", u, P); Idx = _f("LLVMGetIndices", C.POINTER(u), P)
DLine = _f("LLVMGetDebugLocLine", u, P); DFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(u))
DLoc = _f("LLVMInstructionGetDebugLoc", P, P)
DInl = _f("LLVMDILocationGetInlinedAt", P, P); DLL = _f("LLVMDILocationGetLine", u, P); DScope = _f("LLVMDILocationGetScope", P, P)
DScFile = _f("LLVMDIScopeGetFile", P, P); DFileName = _f("LLVMDIFileGetFilename", P, P, C.POINTER(u))
NumSucc = _f("LLVMGetNumSuccessors", u, P); Succ = _f("LLVMGetSuccessor", P, P, u)
ElemTy = _f("LLVMGetElementType", P, P); ArrLen = _f("LLVMGetArrayLength", u, P); VecLen = _f("LLVMGetVectorSize", u, P)
NStructE = _f("LLVMCountStructElementTypes", u, P); StructE = _f("LLVMStructGetTypeAtIndex", P, P, u); StructN = _f("LLVMGetStructName", P, P)
DLof = _f("LLVMGetModuleDataLayout", P, P); SizeOf = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, u)
Align = _f("LLVMGetAlignment", u, P)
IsVol = _f("LLVMGetVolatile", b, P)
GetUse = _f("LLVMGetFirstUse", P, P)
AggElt = _f("LLVMGetAggregateElement", P, P, u)
IsNull = _f("LLVMIsNull", b, P)
ConstOp = _f("LLVMGetConstOpcode", b, P)
AsyncGV = _f("LLVMIsThreadLocal", b, P)
BBasV = _f("LLVMValueAsBasicBlock", P, P)
IsCond = _f("LLVMIsConditional", b, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "atomiccmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 67: "callbr", 68: "freeze"}
ICP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
# value kinds
K_ARG, K_BB, K_FN, K_GV = 0, 1, 5, 8


def _str(p, n=None):
    if not p:
        return ""
    return (C.string_at(p, n) if n is not None else C.string_at(p)).decode(errors="replace")


class Type:
    """kind: int/float/double/ptr/void/array/vector/struct/label/other"""
    def __new__(c, *a):
        o = object.__new__(c)
        o.sn = next(_sn)
        return o

    def __hash__(s): return mix(s.sn)

    KIND = {0: "void", 1: "half", 2: "float", 3: "double", 7: "label", 8: "int", 9: "func", 10: "struct",
            11: "array", 12: "ptr", 13: "vector", 14: "metadata"}

    def __init__(s, m, p):
        s.k = Type.KIND.get(TypeKind(p), "other")
        s.name = None
        s.elem = None; s.n = 0; s.fields = []; s.offs = []; s.w = 0
        if s.k == "int":
            s.w = IntW(p)
        elif s.k == "array":
            s.elem = m.type(ElemTy(p)); s.n = ArrLen(p)
        elif s.k == "vector":
            s.elem = m.type(ElemTy(p)); s.n = VecLen(p)
        elif s.k == "struct":
            s.name = _str(StructN(p))
            s.fields = [m.type(StructE(p, i)) for i in range(NStructE(p))]
            s.offs = [OffOf(m.dl, p, i) for i in range(len(s.fields))]
        s.size = 0 if s.k in ("void", "label", "func", "metadata", "other") else SizeOf(m.dl, p)

    def __repr__(s):
        if s.k == "int": return "i%d" % s.w
        if s.k in ("array", "vector"): return "%s%d x %r" % (s.k[0], s.n, s.elem)
        if s.k == "struct": return "%" + (s.name or "anon")
        return s.k


class Val:
    __slots__ = ("kind", "name", "ty", "v", "ops", "id", "sn")

    def __new__(c, *a):
        o = object.__new__(c)
        o.sn = next(_sn)
        return o

    def __hash__(s): return mix(s.sn)

    # kind: const(int) fconst null undef agg arg global func block cexpr instr

    def __init__(s, kind, name, ty, v=None):
        s.kind, s.name, s.ty, s.v, s.ops = kind, name, ty, v, ()

    def __repr__(s):
        return "%s:%s%s" % (s.kind, s.name or "", "" if s.v is None else "=" + str(s.v))


class Instr:
    __slots__ = ("op", "name", "ty", "ops", "pred", "srcty", "inc", "succ", "callee", "args", "mask", "idx", "line",
                 "file", "chain", "bb", "kind", "n", "align", "v", "fn", "volatile", "sn")

    def __new__(c, *a):
        o = object.__new__(c)
        o.sn = next(_sn)
        return o

    def __hash__(s): return mix(s.sn)


    def __repr__(s):
        return "%%%s = %s @%s:%d" % (s.name or s.n, s.op, s.file.split("/")[-1] if s.file else "", s.line)


class Block:
    def __new__(c, *a):
        o = object.__new__(c)
        o.sn = next(_sn)
        return o

    def __hash__(s): return mix(s.sn)

    def __init__(s, fn, name):
        s.fn, s.name, s.ins, s.succ, s.pred = fn, name, [], [], []

    def __repr__(s):
        return "<%s>" % s.name


class Func:
    def __new__(c, *a):
        o = object.__new__(c)
        o.sn = next(_sn)
        return o

    def __hash__(s): return mix(s.sn)

    def __init__(s, name):
        s.name, s.args, s.blocks, s.decl, s.linkage = name, [], [], True, 0

    def __repr__(s):
        return "fn " + s.name


class Module:
    def __init__(s, path):
        ctx = CtxCreate()
        mb, err, mod = P(), cs(), P()
        if MemBuf(path.encode(), C.byref(mb), C.byref(err)):
            raise IOError(path)
        if ParseIR(ctx, mb, C.byref(mod), C.byref(err)):
            raise ValueError("cannot parse %s: %s" % (path, err.value))
        s.mod = mod
        s.dl = DLof(mod)
        s._ty, s._v, s.keep = {}, {}, []
        s.funcs, s.globals = {}, {}
        f = FirstFn(mod)
        while f:
            n = _nm(f)
            s.funcs[n] = s._v[f] = fn = Func(n)
            fn.decl = bool(IsDecl(f)); fn.linkage = Linkage(f)
            f = NextFn(f)
        g = FirstGV(mod)
        while g:
            v = Val("global", _nm(g), s.type(GValTy(g)))
            v.v = {"const": bool(IsConstG(g)), "init": None, "linkage": Linkage(g), "decl": bool(IsDecl(g)), "tls": bool(AsyncGV(g))}
            s.globals[v.name] = s._v[g] = v
            g = NextGV(g)
        g = FirstGV(mod)
        while g:
            if not IsDecl(g):
                s._v[g].v["init"] = s.val(GInit(g))
            g = NextGV(g)
        f = FirstFn(mod)
        while f:
            if not IsDecl(f):
                s._func(f)
            else:
                fn = s._v[f]
                a = FirstArg(f)
                while a:
                    fn.args.append(Val("arg", _nm(a), s.type(TypeOf(a)))); a = NextArg(a)
            f = NextFn(f)

    def type(s, p):
        t = s._ty.get(p)
        if t is None:
            t = s._ty[p] = Type.__new__(Type)
            t.__init__(s, p)
        return t

    def val(s, p):
        v = s._v.get(p)
        if v is not None:
            return v
        k = ValueKind(p)
        t = s.type(TypeOf(p))
        if k == 18:
            v = Val("const", None, t, ConstS(p) if t.w <= 64 else 0)
            if t.w == 1:
                v.v &= 1
        elif k == 19:
            l = b()
            v = Val("fconst", None, t, ConstReal(p, C.byref(l)))
        elif k == 20:
            v = Val("null", None, t, 0)
        elif k in (14, 25):
            v = Val("undef", None, t)
        elif k == 15:
            v = Val("zero", None, t)
        elif k in (11, 12, 13, 16, 17):
            v = Val("agg", None, t)
            n = t.n if t.k in ("array", "vector") else len(t.fields)
            v.ops = [s.val(AggElt(p, i)) for i in range(n)]
        elif k == 10:
            v = Val("cexpr", None, t, OPC.get(ConstOp(p), "?"))
            v.ops = [s.val(Op(p, i)) for i in range(NumOps(p))]
            if v.v == "gep":
                v.id = s.type(GEPTy(p))
        else:
            v = Val("asm" if k == 23 else "other", "", t, k)
        s._v[p] = v
        return v

    def _func(s, f):
        fn = s._v[f]
        a = FirstArg(f)
        while a:
            v = s._v[a] = Val("arg", _nm(a), s.type(TypeOf(a)))
            fn.args.append(v)
            a = NextArg(a)
        bb = FirstBB(f)
        raw = []
        k = 0
        while bb:
            blk = Block(fn, _nm_bb(bb) or "b%d" % k); k += 1
            s._v[bb] = blk
            fn.blocks.append(blk)
            i = FirstI(bb)
            while i:
                ins = Instr()
                ins.kind = "instr"; ins.bb = blk; ins.v = None; ins.fn = fn
                s._v[i] = ins
                blk.ins.append(ins)
                raw.append((i, ins))
                i = NextI(i)
            bb = NextBB(bb)
        for n, (i, ins) in enumerate(raw):
            s._instr(i, ins, n)
        for blk in fn.blocks:
            t = blk.ins[-1]
            blk.succ = list(t.succ)
            for q in blk.succ:
                if blk not in q.pred:
                    q.pred.append(blk)
        fn.decl = False

    def _instr(s, p, i, n):
        i.op = OPC.get(Opcode(p), "op%d" % Opcode(p))
        i.name = _nm(p)
        i.n = n
        i.ty = s.type(TypeOf(p))
        i.pred = i.srcty = i.callee = None
        i.inc = i.succ = i.args = i.mask = i.idx = ()
        i.align = 0
        i.volatile = False
        ln = u()
        i.line = DLine(p)
        fp = DFile(p, C.byref(ln))
        i.file = _str(fp, ln.value) if fp else ""
        i.chain = ()
        d = DLoc(p)
        if d:
            ch = []
            q = DInl(d)
            while q:
                sc = DScope(q)
                fl = DScFile(sc) if sc else None
                if fl:
                    fn = DFileName(fl, C.byref(ln))
                    ch.append((_str(fn, ln.value), DLL(q)))
                else:
                    ch.append(("", DLL(q)))
                q = DInl(q)
            i.chain = tuple(ch)
        if i.op == "phi":
            i.inc = [(s.val(IncV(p, k)), s._v[IncB(p, k)]) for k in range(CountInc(p))]
            i.ops = [a for a, _ in i.inc]
            return
        if i.op in ("br", "switch"):
            i.succ = [s._v[Succ(p, k)] for k in range(NumSucc(p))]
            if i.op == "br":
                i.ops = [s.val(Op(p, 0))] if IsCond(p) else []
            else:
                nops = NumOps(p)
                i.ops = [s.val(Op(p, 0))]
                i.idx = [ConstS(Op(p, k)) for k in range(2, nops, 2)]   # case values, succ[1:] in order
            return
        if i.op in ("call", "invoke"):
            i.callee = s.val(Called(p))
            i.args = [s.val(Op(p, k)) for k in range(NumArgs(p))] if not _has_md(p, s) else s._args(p)
            i.ops = list(i.args)
            return
        i.ops = [s.val(Op(p, k)) for k in range(NumOps(p))]
        if i.op == "icmp":
            i.pred = ICP[ICmp(p)]
        elif i.op == "fcmp":
            i.pred = FCP[FCmp(p)]
        elif i.op == "gep":
            i.srcty = s.type(GEPTy(p))
        elif i.op == "alloca":
            i.srcty = s.type(AllocaTy(p)); i.align = Align(p)
        elif i.op in ("load", "store"):
            i.align = Align(p); i.volatile = bool(IsVol(p))
        elif i.op == "shufflevector":
            i.mask = [MaskV(p, k) for k in range(NumMask(p))]
        elif i.op in ("extractvalue", "insertvalue"):
            ix = Idx(p)
            i.idx = [ix[k] for k in range(NumIdx(p))]

    def _args(s, p):
        r = []
        for k in range(NumArgs(p)):
            o = Op(p, k)
            if TypeKind(TypeOf(o)) == 14:
                r.append(Val("metadata", None, s.type(TypeOf(o))))
            else:
                r.append(s.val(o))
        return r


def _has_md(p, s):
    for k in range(NumArgs(p)):
        if TypeKind(TypeOf(Op(p, k))) == 14:
            return True
    return False


def _nm(p):
    n = sz()
    q = ValName(p, C.byref(n))
    return _str(q, n.value)


BBName = _f("LLVMGetBasicBlockName", P, P)


def _nm_bb(p):
    return _str(BBName(p))


def demangle(n):
    """_Z10cake_sgemmPf... -> cake_sgemm (all we need)"""
    import re
    m = re.match(r"_ZL?(\d+)", n)
    if m:
        k = int(m.group(1))
        return n[m.end():m.end() + k]
    return n
