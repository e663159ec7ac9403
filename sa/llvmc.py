"""Loader: LLVM IR (bitcode / text) -> plain Python structures, through the LLVM-C API (ctypes).

Nothing here executes the program: it only reads the compiler's intermediate representation."""
import ctypes, os
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_uint64, c_size_t, c_double, byref, POINTER

_L = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so.1", "libLLVM-18.so"):
    try:
        _L = ctypes.CDLL(_p)
        break
    except OSError:
        pass
if _L is None:
    raise SystemExit("libLLVM-18 not found")


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


V = c_void_p
CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ParseIR = _f("LLVMParseIRInContext", c_int, V, V, POINTER(V), POINTER(c_char_p))
ContextCreate = _f("LLVMContextCreate", V)
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", V, V)
ABISizeOfType = _f("LLVMABISizeOfType", c_uint64, V, V)
StoreSizeOfType = _f("LLVMStoreSizeOfType", c_uint64, V, V)
OffsetOfElement = _f("LLVMOffsetOfElement", c_uint64, V, V, c_uint)
PointerSize = _f("LLVMPointerSize", c_uint, V)
GetFirstFunction = _f("LLVMGetFirstFunction", V, V)
GetNextFunction = _f("LLVMGetNextFunction", V, V)
GetFirstGlobal = _f("LLVMGetFirstGlobal", V, V)
GetNextGlobal = _f("LLVMGetNextGlobal", V, V)
GetInitializer = _f("LLVMGetInitializer", V, V)
IsGlobalConstant = _f("LLVMIsGlobalConstant", c_int, V)
GlobalGetValueType = _f("LLVMGlobalGetValueType", V, V)
GetValueName2 = _f("LLVMGetValueName2", c_char_p, V, POINTER(c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", c_int, V)
GetLinkage = _f("LLVMGetLinkage", c_int, V)
CountParams = _f("LLVMCountParams", c_uint, V)
GetParam = _f("LLVMGetParam", V, V, c_uint)
GetFirstBB = _f("LLVMGetFirstBasicBlock", V, V)
GetNextBB = _f("LLVMGetNextBasicBlock", V, V)
GetFirstInst = _f("LLVMGetFirstInstruction", V, V)
GetNextInst = _f("LLVMGetNextInstruction", V, V)
GetOpcode = _f("LLVMGetInstructionOpcode", c_int, V)
GetNumOperands = _f("LLVMGetNumOperands", c_int, V)
GetOperand = _f("LLVMGetOperand", V, V, c_uint)
TypeOf = _f("LLVMTypeOf", V, V)
GetTypeKind = _f("LLVMGetTypeKind", c_int, V)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", c_uint, V)
CountStructElementTypes = _f("LLVMCountStructElementTypes", c_uint, V)
StructGetTypeAtIndex = _f("LLVMStructGetTypeAtIndex", V, V, c_uint)
GetElementType = _f("LLVMGetElementType", V, V)
GetArrayLength = _f("LLVMGetArrayLength2", c_uint64, V)
GetVectorSize = _f("LLVMGetVectorSize", c_uint, V)
GetValueKind = _f("LLVMGetValueKind", c_int, V)
ConstIntGetZ = _f("LLVMConstIntGetZExtValue", c_uint64, V)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", c_double, V, POINTER(c_int))
GetConstOpcode = _f("LLVMGetConstOpcode", c_int, V)
GetAggregateElement = _f("LLVMGetAggregateElement", V, V, c_uint)
GetICmp = _f("LLVMGetICmpPredicate", c_int, V)
GetFCmp = _f("LLVMGetFCmpPredicate", c_int, V)
GetVolatile = _f("LLVMGetVolatile", c_int, V)
GetAllocatedType = _f("LLVMGetAllocatedType", V, V)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", V, V)
GetCalledValue = _f("LLVMGetCalledValue", V, V)
GetNumArgOperands = _f("LLVMGetNumArgOperands", c_uint, V)
GetNumSuccessors = _f("LLVMGetNumSuccessors", c_uint, V)
GetSuccessor = _f("LLVMGetSuccessor", V, V, c_uint)
IsConditional = _f("LLVMIsConditional", c_int, V)
CountIncoming = _f("LLVMCountIncoming", c_uint, V)
GetIncomingValue = _f("LLVMGetIncomingValue", V, V, c_uint)
GetIncomingBlock = _f("LLVMGetIncomingBlock", V, V, c_uint)
GetNumIndices = _f("LLVMGetNumIndices", c_uint, V)
GetIndices = _f("LLVMGetIndices", POINTER(c_uint), V)
GetDebugLocLine = _f("LLVMGetDebugLocLine", c_uint, V)
GetDebugLocFilename = _f("LLVMGetDebugLocFilename", c_void_p, V, POINTER(c_uint))
BasicBlockAsValue = _f("LLVMBasicBlockAsValue", V, V)
GetBBTerminator = _f("LLVMGetBasicBlockTerminator", V, V)
ValueAsBB = _f("LLVMValueAsBasicBlock", V, V)
IsAInlineAsm = _f("LLVMIsAInlineAsm", V, V)
GetInlineAsmConstraints = _f("LLVMGetInlineAsmConstraintString", c_void_p, V, POINTER(c_size_t))
GetInlineAsmSideEffects = _f("LLVMGetInlineAsmHasSideEffects", c_int, V)
GetInlineAsmAsmString = _f("LLVMGetInlineAsmAsmString", c_void_p, V, POINTER(c_size_t))
PrintValue = _f("LLVMPrintValueToString", c_void_p, V)
GetNSW = _f("LLVMGetNSW", c_int, V)
GetNUW = _f("LLVMGetNUW", c_int, V)
IsConstantString = _f("LLVMIsConstantString", c_int, V)
IsThreadLocal = _f("LLVMIsThreadLocal", c_int, V)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}

VK_ARG, VK_BB, VK_FUNC, VK_GVAR = 0, 1, 5, 8   # refined below
# LLVMValueKind: Argument0 BasicBlock1 MemoryUse2 MemoryDef3 MemoryPhi4 Function5 GlobalAlias6 GlobalIFunc7
# GlobalVariable8 BlockAddress9 ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14
# AggregateZero15 DataArray16 DataVector17 ConstantInt18 ConstantFP19 PointerNull20 TokenNone21 MetadataAsValue22
# InlineAsm23 Instruction24 Poison25 TargetNone26


class Ty:
    """kind: void int float ptr array struct vec label other"""
    __slots__ = ("kind", "bits", "elem", "n", "elems", "offs", "size", "ref")

    def __repr__(self):
        return "%s%s" % (self.kind, self.bits or self.n or "")


class Inst:
    __slots__ = ("op", "ty", "ops", "id", "x", "file", "line", "fn")


class Block:
    __slots__ = ("idx", "insts", "phis", "succs", "fn")


class Fn:
    def __init__(self):
        self.blocks = None


class Const:
    __slots__ = ("k", "ty", "v")

    def __init__(self, k, ty, v=None):
        self.k, self.ty, self.v = k, ty, v


def _cstr(ptr, n=None):
    if not ptr:
        return ""
    return ctypes.string_at(ptr, n).decode("utf8", "replace") if n is not None else ctypes.string_at(ptr).decode("utf8", "replace")


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, err, mod = V(), c_char_p(), V()
        if CreateBuf(path.encode(), byref(buf), byref(err)):
            raise RuntimeError("read %s: %s" % (path, err.value))
        if ParseIR(self.ctx, buf, byref(mod), byref(err)):
            raise RuntimeError("parse %s: %s" % (path, err.value))
        self.mod = mod
        self.td = GetModuleDataLayout(mod)
        self.ptrsize = PointerSize(self.td)
        self._ty = {}
        self.fns = {}
        self.globals = {}
        self._fnref = {}
        self._gref = {}
        f = GetFirstFunction(mod)
        while f:
            fn = Fn()
            fn.name = self.vname(f)
            fn.ref = f
            fn.decl = bool(IsDeclaration(f))
            fn.linkage = GetLinkage(f)
            fn.nparams = CountParams(f)
            self.fns[fn.name] = fn
            self._fnref[f] = fn
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            n = self.vname(g)
            self.globals[n] = g
            self._gref[g] = n
            g = GetNextGlobal(g)

    def vname(self, v):
        n = c_size_t()
        s = GetValueName2(v, byref(n))
        return s.decode() if s else ""

    def ty(self, ref):
        t = self._ty.get(ref)
        if t is not None:
            return t
        t = Ty()
        t.bits = t.n = 0
        t.elem = t.elems = t.offs = None
        t.ref = ref
        k = GetTypeKind(ref)
        self._ty[ref] = t
        # 0 void 1 half 2 float 3 double 4 x86_fp80 5 fp128 6 ppc 7 label 8 int 9 function 10 struct 11 array 12 pointer 13 vector 14 metadata
        if k == 0:
            t.kind, t.size = "void", 0
            return t
        if k in (1, 2, 3, 4, 5):
            t.kind, t.bits = "float", {1: 16, 2: 32, 3: 64, 4: 80, 5: 128}[k]
        elif k == 8:
            t.kind, t.bits = "int", GetIntTypeWidth(ref)
        elif k == 10:
            t.kind = "struct"
            t.n = CountStructElementTypes(ref)
            t.elems = [self.ty(StructGetTypeAtIndex(ref, i)) for i in range(t.n)]
            try:
                t.offs = [OffsetOfElement(self.td, ref, i) for i in range(t.n)]
            except Exception:
                t.offs = []
        elif k == 11:
            t.kind, t.n, t.elem = "array", GetArrayLength(ref), self.ty(GetElementType(ref))
        elif k == 12:
            t.kind = "ptr"
        elif k == 13:
            t.kind, t.n, t.elem = "vec", GetVectorSize(ref), self.ty(GetElementType(ref))
        else:
            t.kind, t.size = "other", 0
            return t
        t.size = ABISizeOfType(self.td, ref)
        return t

    # ---- constants
    def const(self, v):
        k = GetValueKind(v)
        ty = self.ty(TypeOf(v))
        if k == 18:
            if ty.bits > 64:
                s = _cstr(PrintValue(v)).split()[-1]
                return Const("int", ty, {"true": 1, "false": 0}.get(s) if s in ("true", "false") else int(s))
            x = ConstIntGetZ(v)
            return Const("int", ty, x)
        if k == 19:
            lost = c_int()
            return Const("fp", ty, ConstRealGetDouble(v, byref(lost)))
        if k == 20:
            return Const("null", ty)
        if k in (14, 25):
            return Const("undef", ty)
        if k == 15:
            return Const("zero", ty)
        if k in (11, 12, 13, 16, 17):
            n = ty.n
            return Const("agg", ty, [self.const(GetAggregateElement(v, i)) for i in range(n)])
        if k == 8:
            return Const("global", ty, self._gref[v])
        if k == 5:
            return Const("func", ty, self._fnref[v])
        if k == 6:   # alias
            return Const("alias", ty, self.const(GetOperand(v, 0)))
        if k == 10:
            op = OPC.get(GetConstOpcode(v), "?")
            i = Inst()
            i.op, i.ty, i.id, i.file, i.line, i.fn = op, ty, -1, None, 0, None
            i.ops = [self.const(GetOperand(v, j)) for j in range(GetNumOperands(v))]
            i.x = self.ty(GetGEPSourceElementType(v)) if op == "gep" else None
            if op == "icmp":
                i.x = ICMP[GetICmp(v)]
            return Const("expr", ty, i)
        if k == 23:
            n = c_size_t()
            p = GetInlineAsmAsmString(v, byref(n))
            text = _cstr(p, n.value)
            p = GetInlineAsmConstraints(v, byref(n))
            return Const("asm", ty, (text, _cstr(p, n.value), bool(GetInlineAsmSideEffects(v))))
        if k == 22:
            return Const("meta", ty)
        return Const("other", ty, k)

    # ---- function bodies
    def body(self, fn):
        if fn.blocks is not None:
            return fn
        regs = {}
        nid = 0
        for i in range(fn.nparams):
            regs[GetParam(fn.ref, i)] = nid
            nid += 1
        fn.ptys = [self.ty(TypeOf(GetParam(fn.ref, i))) for i in range(fn.nparams)]
        bbs, bmap = [], {}
        b = GetFirstBB(fn.ref)
        while b:
            bmap[b] = len(bbs)
            bbs.append(b)
            b = GetNextBB(b)
        raw = []
        for b in bbs:
            lst = []
            i = GetFirstInst(b)
            while i:
                regs[i] = nid
                nid += 1
                lst.append(i)
                i = GetNextInst(i)
            raw.append(lst)
        fn.nregs = nid

        def opnd(v):
            r = regs.get(v)
            return r if r is not None else self.const(v)

        blocks = []
        flen = c_uint()
        for bi, lst in enumerate(raw):
            B = Block()
            B.idx, B.insts, B.phis, B.succs, B.fn = bi, [], [], [], fn
            for iv in lst:
                I = Inst()
                I.op = OPC.get(GetOpcode(iv), "op%d" % GetOpcode(iv))
                I.ty = self.ty(TypeOf(iv))
                I.id = regs[iv]
                I.x = None
                I.fn = fn
                ln = GetDebugLocLine(iv)
                I.line = ln
                p = GetDebugLocFilename(iv, byref(flen)) if ln else None
                I.file = _cstr(p, flen.value) if p else None
                o = I.op
                if o == "phi":
                    n = CountIncoming(iv)
                    I.ops = [(opnd(GetIncomingValue(iv, j)), bmap[GetIncomingBlock(iv, j)]) for j in range(n)]
                    B.phis.append(I)
                    continue
                if o in ("call", "invoke"):
                    cv = GetCalledValue(iv)
                    I.ops = [opnd(GetOperand(iv, j)) for j in range(GetNumArgOperands(iv))]
                    I.x = opnd(cv)
                    if isinstance(I.x, Const) and I.x.k == "func" and I.x.v.name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias")):
                        continue
                    if o == "invoke":
                        B.succs = [bmap[GetSuccessor(iv, 0)]]   # normal destination only (no unwinding)
                elif o == "br":
                    n = GetNumSuccessors(iv)
                    B.succs = [bmap[GetSuccessor(iv, j)] for j in range(n)]
                    I.ops = [opnd(GetOperand(iv, 0))] if n == 2 else []
                elif o == "switch":
                    n = GetNumOperands(iv)
                    I.ops = [opnd(GetOperand(iv, 0))]
                    cases = []
                    default = bmap[ValueAsBB(GetOperand(iv, 1))]
                    for j in range(2, n, 2):
                        cases.append((self.const(GetOperand(iv, j)).v, bmap[ValueAsBB(GetOperand(iv, j + 1))]))
                    I.x = (default, cases)
                    B.succs = [default] + [c[1] for c in cases]
                else:
                    I.ops = [opnd(GetOperand(iv, j)) for j in range(GetNumOperands(iv))]
                    if o == "gep":
                        I.x = self.ty(GetGEPSourceElementType(iv))
                    elif o == "alloca":
                        I.x = self.ty(GetAllocatedType(iv))
                    elif o == "icmp":
                        I.x = ICMP[GetICmp(iv)]
                    elif o == "fcmp":
                        I.x = FCMP[GetFCmp(iv)]
                    elif o in ("load", "store"):
                        I.x = bool(GetVolatile(iv))
                        if o == "store":
                            v0 = GetOperand(iv, 0)
                            I.x = (bool(GetVolatile(iv)), self.ty(TypeOf(v0)))
                    elif o in ("extractvalue", "insertvalue"):
                        n = GetNumIndices(iv)
                        p = GetIndices(iv)
                        I.x = [p[j] for j in range(n)]
                    elif o in ("add", "sub", "mul", "shl"):
                        I.x = (bool(GetNSW(iv)), bool(GetNUW(iv)))
                B.insts.append(I)
            blocks.append(B)
        fn.blocks = blocks
        # operand types for casts etc.
        fn.optys = None
        self._loops(fn)
        return fn

    def opty(self, I, j):
        raise NotImplementedError

    # ---- loop structure (reducible CFGs): nest path per block, for the ordering of trace partitions
    def _loops(self, fn):
        n = len(fn.blocks)
        succ = [list(dict.fromkeys(b.succs)) for b in fn.blocks]
        # RPO
        order, seen = [], [False] * n
        stack = [(0, iter(succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for w in it:
                if not seen[w]:
                    seen[w] = True
                    stack.append((w, iter(succ[w])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for u in order:
            for w in succ[u]:
                preds[w].append(u)
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while rpo[a] > rpo[c]:
                                    a = idom[a]
                                while rpo[c] > rpo[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == order[0]:
                    return False
                b = idom[b]

        loops = {}   # header -> set(blocks)
        irreducible = False
        for u in order:
            for w in succ[u]:
                if rpo[w] <= rpo[u]:
                    if not dom(w, u):
                        irreducible = True
                    body = loops.setdefault(w, {w})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # order position that keeps loop bodies contiguous: nest paths
        nest = {b: [] for b in order}
        for h in sorted(loops, key=lambda h: -len(loops[h])):
            for b in loops[h]:
                nest[b].append(h)
        fn.rpo, fn.nest, fn.loops, fn.irreducible = rpo, nest, loops, irreducible
