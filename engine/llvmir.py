"""Loads an LLVM 18 bitcode/IR file through the LLVM C API (ctypes) and decodes it into plain
Python objects the symbolic executor walks over.  Nothing of the code under test is modelled
here: what is decoded is what clang produced from /repo's current sources."""
import ctypes, glob
from ctypes import c_void_p, c_uint, c_int, c_char_p, c_size_t, c_ulonglong, c_longlong, c_double, byref, POINTER

_cands = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"] + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM-18*.so*")
_lib = None
for _c in _cands:
    try:
        _lib = ctypes.CDLL(_c); break
    except OSError:
        pass
if _lib is None:
    raise RuntimeError("libLLVM 18 not found")

def _f(name, res, *args):
    fn = getattr(_lib, name); fn.restype = res; fn.argtypes = list(args); return fn
P = c_void_p
ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(c_char_p))
ParseIR = _f("LLVMParseIRInContext", c_int, P, P, POINTER(P), POINTER(c_char_p))
GetDataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P); NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P); NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P); NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
ValueName = _f("LLVMGetValueName2", P, P, POINTER(c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P); NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", c_int, P)
NumOperands = _f("LLVMGetNumOperands", c_int, P)
Operand = _f("LLVMGetOperand", P, P, c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", c_uint, P)
ValueKind = _f("LLVMGetValueKind", c_int, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", c_double, P, POINTER(c_int))
ConstOpcode = _f("LLVMGetConstOpcode", c_int, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
ABISize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
StructElems = _f("LLVMCountStructElementTypes", c_uint, P)
StructElemAt = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", c_ulonglong, P)
VectorLen = _f("LLVMGetVectorSize", c_uint, P)
ICmpPred = _f("LLVMGetICmpPredicate", c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", c_int, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", c_uint, P)
NormalDest = _f("LLVMGetNormalDest", P, P); UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumClauses = _f("LLVMGetNumClauses", c_uint, P); GetClause = _f("LLVMGetClause", P, P, c_uint); IsCleanup = _f("LLVMIsCleanup", c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", c_uint, P); Successor = _f("LLVMGetSuccessor", P, P, c_uint)
NumIndices = _f("LLVMGetNumIndices", c_uint, P); Indices = _f("LLVMGetIndices", POINTER(c_uint), P)
CountIncoming = _f("LLVMCountIncoming", c_uint, P); IncomingValue = _f("LLVMGetIncomingValue", P, P, c_uint); IncomingBlock = _f("LLVMGetIncomingBlock", P, P, c_uint)
NSW = _f("LLVMGetNSW", c_int, P)
GlobalInit = _f("LLVMGetInitializer", P, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
CountParams = _f("LLVMCountParams", c_uint, P); GetParam = _f("LLVMGetParam", P, P, c_uint)
AggElem = _f("LLVMGetAggregateElement", P, P, c_uint)
IsConstString = _f("LLVMIsConstantString", c_int, P)
GetAsString = _f("LLVMGetAsString", P, P, POINTER(c_size_t))
Ordering = _f("LLVMGetOrdering", c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", c_int, P)
ReturnType = _f("LLVMGetReturnType", P, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
GetBBParent = _f("LLVMGetBasicBlockParent", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
MDStr = _f("LLVMGetMDString", P, P, POINTER(c_uint))
GetMask = _f("LLVMGetMaskValue", c_int, P, c_uint)
NumMask = _f("LLVMGetNumMaskElements", c_uint, P)
GEPInbounds = _f("LLVMIsInBounds", c_int, P)

# type kinds
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 8: "int", 9: "function", 10: "struct", 11: "array",
      12: "pointer", 13: "vector", 14: "metadata", 7: "label", 16: "token"}
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr",
       30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast", 66: "fneg", 68: "freeze"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge",
         12: "ult", 13: "ule", 14: "une", 15: "true"}
# value kinds
VK_ARG, VK_BB, VK_MEMUSE = 0, 1, 2
VK = {0: "arg", 1: "bb", 5: "func", 6: "alias", 7: "ifunc", 8: "gvar", 9: "blockaddr", 10: "cexpr", 11: "carray", 12: "cstruct",
      13: "cvector", 14: "undef", 15: "caggzero", 16: "cdarray", 17: "cdvector", 18: "cint", 19: "cfp", 20: "cnull", 21: "ctokennone",
      22: "metadata", 23: "inlineasm", 24: "inst", 25: "poison", 26: "ctargetnone"}

class Ty:
    __slots__ = ("kind", "width", "size", "store", "elems", "offs", "elem", "n", "ptr")
    def __repr__(self): return f"<{self.kind}{self.width or ''}>"

class Func:
    __slots__ = ("name", "decl", "nparams", "blocks", "nregs", "entry", "ninst", "ptr", "rety", "decoded", "mod", "params")
class Block:
    __slots__ = ("insts", "phis", "idx", "lpad")
class Glob:
    __slots__ = ("name", "size", "ptr", "decl", "ty")

class Module:
    """operands are encoded as ('r',n) for registers or ('c',value) for constants; constants hold Python ints,
    floats (exact doubles), GlobalRef objects, Undef or tuples for aggregates."""
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P(); err = c_char_p()
        if CreateMemBuf(path.encode(), byref(buf), byref(err)):
            raise RuntimeError("cannot read %s" % path)
        mod = P(); err = c_char_p()
        if ParseIR(self.ctx, buf, byref(mod), byref(err)):
            raise RuntimeError("parse error: %s" % err.value)
        self.mod = mod
        self.dl = GetDataLayout(mod)
        self.types = {}
        self.funcs = {}; self.globals = {}; self.aliases = {}
        self.vname = {}
        f = FirstFunction(mod)
        while f:
            F = Func(); F.name = self._name(f); F.decl = bool(IsDeclaration(f)); F.ptr = f; F.decoded = False
            F.nparams = CountParams(f); F.mod = self
            self.funcs[F.name] = F
            f = NextFunction(f)
        g = FirstGlobal(mod)
        while g:
            G = Glob(); G.name = self._name(g); G.ptr = g; G.decl = bool(IsDeclaration(g))
            G.ty = self.ty(GlobalValueType(g))
            G.size = G.ty.size if G.ty.kind != "opaque" else 64
            self.globals[G.name] = G
            g = NextGlobal(g)
        a = FirstAlias(mod)
        while a:
            self.aliases[self._name(a)] = Aliasee(a)
            a = NextAlias(a)

    def _name(self, v):
        n = c_size_t(); p = ValueName(v, byref(n))
        return ctypes.string_at(p, n.value).decode()

    def ty(self, t):
        r = self.types.get(t)
        if r is not None: return r
        r = Ty(); r.ptr = t
        k = TK.get(TypeKind(t), "other%d" % TypeKind(t))
        r.kind = k; r.width = 0; r.elems = None; r.offs = None; r.elem = None; r.n = 0; r.size = 0; r.store = 0
        if k == "int":
            r.width = IntWidth(t)
        if k == "struct":
            ne = StructElems(t)
            try:
                r.elems = [self.ty(StructElemAt(t, i)) for i in range(ne)]
                r.offs = [OffsetOf(self.dl, t, i) for i in range(ne)]
            except Exception:
                r.kind = "opaque"
            if ne == 0: r.elems = []; r.offs = []
        if k == "array":
            r.elem = self.ty(ElementType(t)); r.n = ArrayLen(t)
        if k == "vector":
            r.elem = self.ty(ElementType(t)); r.n = VectorLen(t)
        if k in ("int", "double", "float", "pointer", "struct", "array", "vector", "x86_fp80"):
            if not (k == "struct" and ne == 0 and False):
                try:
                    r.size = ABISize(self.dl, t); r.store = StoreSize(self.dl, t)
                except Exception:
                    pass
        self.types[t] = r
        return r

    # ---- constants -------------------------------------------------------------------------
    def const(self, v):
        k = VK.get(ValueKind(v), "?")
        t = self.ty(TypeOf(v))
        if k == "cint":
            if t.width > 64:
                s = ctypes.string_at(PrintValue(v)).decode(); val = int(s.split()[-1])
            else:
                val = ConstZExt(v)
                if t.width > 1:
                    if val >= 1 << (t.width - 1): val -= 1 << t.width
            if t.width == 1: return ("b", bool(val))
            return ("i", val)
        if k == "cfp":
            li = c_int(); d = ConstReal(v, byref(li)); return ("f", d)
        if k == "cnull": return ("i", 0)
        if k in ("undef", "poison"):
            if t.kind in ("struct", "array", "vector"):
                return ("u", t)
            return ("u", None)
        if k == "func": return ("g", self._name(v))
        if k == "gvar": return ("g", self._name(v))
        if k == "alias": return self.const(self.aliases[self._name(v)])
        if k == "caggzero": return ("z", t)
        if k in ("carray", "cstruct", "cvector"):
            return ("a", t, [self.const(Operand(v, i)) for i in range(NumOperands(v))])
        if k in ("cdarray", "cdvector"):
            if k == "cdarray" and IsConstString(v):
                n = c_size_t(); p = GetAsString(v, byref(n)); return ("s", t, ctypes.string_at(p, n.value))
            return ("a", t, [self.const(AggElem(v, i)) for i in range(t.n)])
        if k == "cexpr":
            op = OPC.get(ConstOpcode(v))
            ops = [self.const(Operand(v, i)) for i in range(NumOperands(v))]
            if op == "getelementptr":
                st = self.ty(GEPSrcTy(v))
                off, dyn = self.gep_offsets(st, [o for o in ops[1:]])
                assert not dyn
                return ("e+", ops[0], off)
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return ops[0]
            return ("e", op, ops, t)
        if k == "metadata": return ("m", None)
        if k == "inlineasm": return ("asm", None)
        raise NotImplementedError("constant kind %s %s" % (k, ctypes.string_at(PrintValue(v))[:200]))

    def gep_offsets(self, st, idx):
        """idx: operand encodings; returns constant offset and list of (operand, scale)"""
        off = 0; dyn = []
        first = True; t = st
        for o in idx:
            if first:
                first = False
                sz = t.size
                if o[0] == "i": off += o[1] * sz
                else: dyn.append((o, sz))
                continue
            if t.kind == "struct":
                assert o[0] == "i"
                off += t.offs[o[1]]; t = t.elems[o[1]]
            else:
                t = t.elem
                if o[0] == "i": off += o[1] * t.size
                else: dyn.append((o, t.size))
        return off, dyn

    # ---- functions --------------------------------------------------------------------------
    def decode(self, F):
        if F.decoded: return
        F.decoded = True
        f = F.ptr
        reg = {}
        n = 0
        for i in range(F.nparams):
            reg[GetParam(f, i)] = n; n += 1
        bbs = {}
        b = FirstBB(f); order = []
        while b:
            B = Block(); B.idx = len(order); B.insts = []; B.phis = []; B.lpad = None
            bbs[b] = B; order.append((b, B)); b = NextBB(b)
        for b, B in order:
            ins = FirstInst(b)
            while ins:
                reg[ins] = n; n += 1
                ins = NextInst(ins)
        F.nregs = n
        cache = {}
        def opnd(v):
            r = reg.get(v)
            if r is not None: return ("r", r)
            c = cache.get(v)
            if c is None:
                c = cache[v] = self.const(v)
            return c
        for b, B in order:
            ins = FirstInst(b)
            while ins:
                self._decode_inst(ins, reg, bbs, opnd, B)
                ins = NextInst(ins)
        F.blocks = [B for _, B in order]
        F.entry = F.blocks[0]
        F.ninst = sum(len(B.insts) + len(B.phis) for B in F.blocks)

    def _decode_inst(self, ins, reg, bbs, opnd, B):
        op = OPC.get(Opcode(ins), "op%d" % Opcode(ins))
        d = reg[ins]
        t = self.ty(TypeOf(ins))
        nops = NumOperands(ins)
        if op == "phi":
            inc = {}
            for i in range(CountIncoming(ins)):
                inc[bbs[IncomingBlock(ins, i)].idx] = opnd(IncomingValue(ins, i))
            B.phis.append((d, inc)); return
        if op in ("call", "invoke"):
            na = NumArgOps(ins)
            cv = CalledValue(ins)
            args = []
            for i in range(na):
                o = Operand(ins, i)
                if VK.get(ValueKind(o)) == "metadata":
                    args.append(("m", None)); continue
                args.append(opnd(o))
            callee = opnd(cv)
            pred = None
            if callee[0] == "g" and callee[1].startswith("llvm.experimental.constrained.fcmp"):
                s = ctypes.string_at(PrintValue(ins)).decode()
                import re
                pred = re.search(r'metadata !"([a-z]+)"', s).group(1)
            argtys = [self.ty(TypeOf(Operand(ins, i))) for i in range(na)]
            if op == "call":
                B.insts.append(("call", d, callee, args, t, pred, argtys)); return
            B.insts.append(("invoke", d, callee, args, t, pred, argtys, bbs[NormalDest(ins)], bbs[UnwindDest(ins)])); return
        if op == "br":
            if nops == 1:
                B.insts.append(("jmp", bbs[Successor(ins, 0)])); return
            B.insts.append(("br", opnd(Operand(ins, 0)), bbs[Successor(ins, 0)], bbs[Successor(ins, 1)])); return
        if op == "switch":
            cond = opnd(Operand(ins, 0)); default = bbs[Successor(ins, 0)]
            cases = []
            for i in range(1, NumSucc(ins)):
                cases.append((self.const(Operand(ins, 2 * i))[1], bbs[Successor(ins, i)]))
            B.insts.append(("switch", cond, default, cases, self.ty(TypeOf(Operand(ins, 0))))); return
        if op == "ret":
            B.insts.append(("ret", opnd(Operand(ins, 0)) if nops else None)); return
        if op == "unreachable":
            B.insts.append(("unreachable",)); return
        if op == "alloca":
            B.insts.append(("alloca", d, self.ty(AllocatedType(ins)).size, opnd(Operand(ins, 0)))); return
        if op == "load":
            B.insts.append(("aload" if Ordering(ins) else "load", d, opnd(Operand(ins, 0)), t)); return
        if op == "store":
            v = Operand(ins, 0)
            B.insts.append(("astore" if Ordering(ins) else "store", opnd(v), opnd(Operand(ins, 1)), self.ty(TypeOf(v)))); return
        if op == "getelementptr":
            st = self.ty(GEPSrcTy(ins))
            off, dyn = self.gep_offsets(st, [opnd(Operand(ins, i)) for i in range(1, nops)])
            B.insts.append(("gep", d, opnd(Operand(ins, 0)), off, dyn)); return
        if op == "icmp":
            ot = self.ty(TypeOf(Operand(ins, 0)))
            B.insts.append(("icmp", d, IPRED[ICmpPred(ins)], opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), 64 if ot.kind == "pointer" else ot.width)); return
        if op == "fcmp":
            B.insts.append(("fcmp", d, FPRED[FCmpPred(ins)], opnd(Operand(ins, 0)), opnd(Operand(ins, 1)))); return
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            nsw = bool(NSW(ins)) if op in ("add", "sub", "mul", "shl") else False
            B.insts.append(("ibin", d, op, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), t.width, nsw)); return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            B.insts.append(("fbin", d, op, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), t)); return
        if op == "fneg":
            B.insts.append(("fneg", d, opnd(Operand(ins, 0)), t)); return
        if op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc", "freeze", "addrspacecast"):
            s = Operand(ins, 0); st = self.ty(TypeOf(s))
            B.insts.append(("cast", d, op, opnd(s), st, t)); return
        if op == "select":
            B.insts.append(("select", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), opnd(Operand(ins, 2)), t)); return
        if op == "extractvalue":
            ix = [Indices(ins)[i] for i in range(NumIndices(ins))]
            B.insts.append(("extractvalue", d, opnd(Operand(ins, 0)), ix)); return
        if op == "insertvalue":
            ix = [Indices(ins)[i] for i in range(NumIndices(ins))]
            B.insts.append(("insertvalue", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), ix, t)); return
        if op == "extractelement":
            B.insts.append(("extractelement", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)))); return
        if op == "insertelement":
            B.insts.append(("insertelement", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), opnd(Operand(ins, 2)), t)); return
        if op == "shufflevector":
            mask = [GetMask(ins, i) for i in range(NumMask(ins))]
            B.insts.append(("shufflevector", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), mask, self.ty(TypeOf(Operand(ins, 0))))); return
        if op == "landingpad":
            cl = [self.const(GetClause(ins, i)) for i in range(NumClauses(ins))]
            B.insts.append(("landingpad", d, cl, bool(IsCleanup(ins)))); return
        if op == "resume":
            B.insts.append(("resume", opnd(Operand(ins, 0)))); return
        if op == "atomicrmw":
            B.insts.append(("atomicrmw", d, RMWOp(ins), opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), t)); return
        if op == "cmpxchg":
            B.insts.append(("cmpxchg", d, opnd(Operand(ins, 0)), opnd(Operand(ins, 1)), opnd(Operand(ins, 2)), self.ty(TypeOf(Operand(ins, 1))))); return
        if op == "fence":
            return
        B.insts.append(("unsupported", ctypes.string_at(PrintValue(ins)).decode()))
