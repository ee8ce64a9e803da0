"""LLVM IR reader: loads bitcode with libLLVM's C API (ctypes) into light Python objects.

Nothing is dropped except debug metadata.  Functions are converted lazily.
"""
import ctypes as C
import re

_L = None
for _n in ("/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
           "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "libLLVM-18.so.1", "libLLVM.so.18.1",
           "libLLVM-18.so"):
    try:
        _L = C.CDLL(_n)
        break
    except OSError:
        continue
if _L is None:
    raise ImportError("libLLVM-18 not found")

_P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", _P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p,
                  C.POINTER(_P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, _P, _P, C.POINTER(_P), C.POINTER(C.c_char_p))
GetDL = _f("LLVMGetModuleDataLayout", _P, _P)
FirstFn = _f("LLVMGetFirstFunction", _P, _P)
NextFn = _f("LLVMGetNextFunction", _P, _P)
FirstGl = _f("LLVMGetFirstGlobal", _P, _P)
NextGl = _f("LLVMGetNextGlobal", _P, _P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", _P, _P)
NextAlias = _f("LLVMGetNextGlobalAlias", _P, _P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", _P, _P)
GetName = _f("LLVMGetValueName2", _P, _P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, _P)
CountParams = _f("LLVMCountParams", C.c_uint, _P)
GetParam = _f("LLVMGetParam", _P, _P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", _P, _P)
NextBB = _f("LLVMGetNextBasicBlock", _P, _P)
FirstInst = _f("LLVMGetFirstInstruction", _P, _P)
NextInst = _f("LLVMGetNextInstruction", _P, _P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, _P)
NumOps = _f("LLVMGetNumOperands", C.c_int, _P)
GetOp = _f("LLVMGetOperand", _P, _P, C.c_uint)
TypeOf = _f("LLVMTypeOf", _P, _P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, _P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, _P)
CountStruct = _f("LLVMCountStructElementTypes", C.c_uint, _P)
StructElt = _f("LLVMStructGetTypeAtIndex", _P, _P, C.c_uint)
GetElementType = _f("LLVMGetElementType", _P, _P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, _P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, _P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, _P, _P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, _P, _P)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, _P, _P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, _P, _P, C.c_uint)
ReturnTypeOf = _f("LLVMGetReturnType", _P, _P)
GlobalValueType = _f("LLVMGlobalGetValueType", _P, _P)
GetInit = _f("LLVMGetInitializer", _P, _P)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, _P)
ValueKind = _f("LLVMGetValueKind", C.c_int, _P)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, _P)
PrintVal = _f("LLVMPrintValueToString", _P, _P)
PrintType = _f("LLVMPrintTypeToString", _P, _P)
DisposeMsg = _f("LLVMDisposeMessage", None, _P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, _P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", _P, _P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, _P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, _P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, _P)
IncomingVal = _f("LLVMGetIncomingValue", _P, _P, C.c_uint)
IncomingBB = _f("LLVMGetIncomingBlock", _P, _P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, _P)
GetSucc = _f("LLVMGetSuccessor", _P, _P, C.c_uint)
GetTerm = _f("LLVMGetBasicBlockTerminator", _P, _P)
CalledVal = _f("LLVMGetCalledValue", _P, _P)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, _P)
AllocTy = _f("LLVMGetAllocatedType", _P, _P)
GetAlign = _f("LLVMGetAlignment", C.c_uint, _P)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, _P)
GetIdx = _f("LLVMGetIndices", C.POINTER(C.c_uint), _P)
NumClauses = _f("LLVMGetNumClauses", C.c_uint, _P)
GetClause = _f("LLVMGetClause", _P, _P, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, _P)
Ordering = _f("LLVMGetOrdering", C.c_int, _P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, _P)
CmpxSucc = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, _P)
CmpxFail = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, _P)
SwDefault = _f("LLVMGetSwitchDefaultDest", _P, _P)
InvNormal = _f("LLVMGetNormalDest", _P, _P)
InvUnwind = _f("LLVMGetUnwindDest", _P, _P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, _P, C.POINTER(C.c_int))
IsVolatile = _f("LLVMGetVolatile", C.c_int, _P)
GetNUW = _f("LLVMGetNUW", C.c_int, _P)
GetNSW = _f("LLVMGetNSW", C.c_int, _P)
GetExact = _f("LLVMGetExact", C.c_int, _P)
FirstUse = _f("LLVMGetFirstUse", _P, _P)
GetAsString = _f("LLVMGetAsString", _P, _P, C.POINTER(C.c_size_t))
DataElt = _f("LLVMGetElementAsConstant", _P, _P, C.c_uint)
AggElt = _f("LLVMGetAggregateElement", _P, _P, C.c_uint)
GetEnumAttrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
CallSiteEnumAttr = _f("LLVMGetCallSiteEnumAttribute", _P, _P, C.c_uint, C.c_uint)
AttrTypeVal = _f("LLVMGetTypeAttributeValue", _P, _P)
BYVAL = GetEnumAttrKind(b"byval", 5)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl',
       21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
ORD = {0: 'na', 1: 'unordered', 2: 'relaxed', 4: 'acquire', 5: 'release', 6: 'acq_rel',
       7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max',
       8: 'min', 9: 'umax', 10: 'umin'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label',
      8: 'int', 9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata',
      16: 'token'}


class Type:
    __slots__ = ('kind', 'w', 'elems', 'offs', 'n', 'elem', 'size', 'align')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.w
        if self.kind in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return '{' + ', '.join(map(repr, self.elems)) + '}'
        return self.kind

    def bits(self):
        """Width of a scalar as a bit-vector."""
        if self.kind == 'int':
            return self.w
        if self.kind == 'ptr':
            return 64
        if self.kind == 'double':
            return 64
        if self.kind == 'float':
            return 32
        if self.kind == 'half':
            return 16
        if self.kind == 'x86_fp80':
            return 80
        raise KeyError(self.kind)

    def is_scalar(self):
        return self.kind in ('int', 'ptr', 'double', 'float', 'half', 'x86_fp80')


class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'fn', 'pos')

    def __repr__(self):
        return '%s#%d %r %r' % (self.op, self.id, self.ops, self.x)


class Block:
    __slots__ = ('idx', 'insts', 'phis', 'succs', 'preds', 'fn')


class Function:
    def __init__(self, mod, ptr, name, decl):
        self.mod, self.ptr, self.name, self.decl = mod, ptr, name, decl
        self.blocks = None
        self.loops = None
        ft = GlobalValueType(ptr)
        self.rty_p = ReturnTypeOf(ft)
        self.nargs = CountParams(ptr)

    @property
    def rty(self):
        return self.mod.ty(self.rty_p)

    def build(self):
        if self.blocks is None:
            self.mod._build(self)
        return self

    def __repr__(self):
        return 'fn ' + self.name


class Global:
    def __init__(self, ptr, name, const, ty, decl):
        self.ptr, self.name, self.const, self.ty, self.decl = ptr, name, const, ty, decl


# Operand encodings (tuples):
#  ('r', id)  register/argument   ('i', width, value)  integer const     ('z',) null pointer
#  ('u', type) undef              ('g', name) global   ('f', name) function
#  ('ce', op, type, operands, extra) constant expression
#  ('agg', type, [operands])      ('zero', type)       ('fp', bits, pattern)
class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, msg = _P(), C.c_char_p()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise IOError(msg.value)
        m = _P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise IOError(msg.value)
        self.m = m
        self.dl = GetDL(m)
        self._types = {}
        self.functions = {}
        self.globals = {}
        self.byptr = {}
        p = FirstFn(m)
        while p:
            n = self._name(p)
            f = Function(self, p, n, bool(IsDecl(p)))
            self.functions[n] = f
            self.byptr[p] = ('f', n)
            p = NextFn(p)
        p = FirstGl(m)
        while p:
            n = self._name(p)
            self.globals[n] = Global(p, n, bool(IsGlobalConst(p)), self.ty(GlobalValueType(p)),
                                     bool(IsDecl(p)))
            self.byptr[p] = ('g', n)
            p = NextGl(p)
        p = FirstAlias(m)
        self.aliases = {}
        while p:
            n = self._name(p)
            tgt = self._operand(AliasGetAliasee(p), {})
            self.byptr[p] = tgt
            self.aliases[n] = tgt
            p = NextAlias(p)

    def _name(self, p):
        n = C.c_size_t()
        s = GetName(p, C.byref(n))
        return C.string_at(s, n.value).decode()

    def text(self, p):
        s = PrintVal(p)
        r = C.string_at(s).decode(errors='replace')
        DisposeMsg(s)
        return r

    def ty(self, p):
        t = self._types.get(p)
        if t is not None:
            return t
        t = Type()
        t.kind = TK.get(TypeKind(p), 'other%d' % TypeKind(p))
        t.w = t.n = 0
        t.elems = t.offs = t.elem = None
        t.size = t.align = 0
        self._types[p] = t
        k = t.kind
        if k == 'int':
            t.w = IntWidth(p)
        elif k == 'struct':
            n = CountStruct(p)
            t.elems = [self.ty(StructElt(p, i)) for i in range(n)]
        elif k == 'array':
            t.n = ArrayLen(p)
            t.elem = self.ty(GetElementType(p))
        elif k == 'vector':
            t.n = VecLen(p)
            t.elem = self.ty(GetElementType(p))
        if k in ('int', 'struct', 'array', 'vector', 'ptr', 'double', 'float', 'half', 'x86_fp80'):
            try:
                t.size = ABISize(self.dl, p)
                t.align = ABIAlign(self.dl, p)
                if k == 'struct':
                    t.offs = [OffsetOf(self.dl, p, i) for i in range(len(t.elems))]
            except Exception:
                pass
        return t

    def _operand(self, p, regs):
        r = regs.get(p)
        if r is not None:
            return r
        r = self.byptr.get(p)
        if r is not None:
            return r
        k = ValueKind(p)
        # LLVMValueKind: 0 Argument 1 BB 2 MemUse.. 5 Function 6 GlobalAlias 7 IFunc 8 GlobalVar
        # 9 BlockAddress 10 ConstantExpr 11 ConstArray 12 ConstStruct 13 ConstVector 14 Undef
        # 15 AggZero 16 DataArray 17 DataVector 18 ConstInt 19 ConstFP 20 PtrNull 21 TokenNone
        # 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison 26 TargetNone
        if k == 18:
            t = self.ty(TypeOf(p))
            if t.w <= 64:
                return ('i', t.w, ZExtVal(p) & ((1 << t.w) - 1))
            v = int(self.text(p).split()[-1])
            return ('i', t.w, v & ((1 << t.w) - 1))
        if k == 20:
            return ('z',)
        if k in (14, 25):
            return ('u', self.ty(TypeOf(p)))
        if k == 15:
            return ('zero', self.ty(TypeOf(p)))
        if k == 19:
            t = self.ty(TypeOf(p))
            import struct
            lo = C.c_int()
            d = ConstReal(p, C.byref(lo))
            if t.kind == 'double':
                return ('fp', 64, struct.unpack('<Q', struct.pack('<d', d))[0])
            if t.kind == 'float':
                return ('fp', 32, struct.unpack('<I', struct.pack('<f', d))[0])
            return ('fpx', t, d)
        if k in (11, 12, 13):
            t = self.ty(TypeOf(p))
            return ('agg', t, [self._operand(GetOp(p, i), regs) for i in range(NumOps(p))])
        if k in (16, 17):
            t = self.ty(TypeOf(p))
            if k == 16 and t.elem.kind == 'int' and t.elem.w == 8:
                n = C.c_size_t()
                s = GetAsString(p, C.byref(n))
                return ('str', t, C.string_at(s, n.value))
            return ('agg', t, [self._operand(DataElt(p, i), regs) for i in range(t.n)])
        if k == 10:
            t = self.ty(TypeOf(p))
            op = OPC[ConstOpcode(p)]
            ops = [self._operand(GetOp(p, i), regs) for i in range(NumOps(p))]
            x = None
            if op == 'getelementptr':
                x = self._gep(p, regs)
            elif op == 'icmp':
                x = PRED[ICmpPred(p)]
            return ('ce', op, t, ops, x)
        if k == 22:
            return ('md',)
        if k == 23:
            return ('asm', self.text(p))
        return ('other', k, self.text(p)[:200])

    def _gep(self, p, regs):
        """-> (const_offset, [(operand, scale)])"""
        ty = self.ty(GEPSrcTy(p))
        n = NumOps(p)
        off, var = 0, []
        cur = None
        for i in range(1, n):
            o = self._operand(GetOp(p, i), regs)
            if cur is None:
                sz, nxt = ty.size, ty
            elif cur.kind == 'struct':
                idx = o[2]
                off += cur.offs[idx]
                cur = cur.elems[idx]
                continue
            else:
                sz, nxt = cur.elem.size, cur.elem
            if o[0] == 'i':
                v = o[2]
                if v >> (o[1] - 1):
                    v -= 1 << o[1]
                off += v * sz
            else:
                var.append((o, sz))
            cur = nxt
        return off, var

    def _build(self, f):
        regs = {}
        nid = 0
        f.args = []
        for i in range(f.nargs):
            p = GetParam(f.ptr, i)
            regs[p] = ('r', nid)
            f.args.append((nid, self.ty(TypeOf(p))))
            nid += 1
        bbs = {}
        order = []
        b = FirstBB(f.ptr)
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = NextBB(b)
        raw = []
        for b in order:
            p = FirstInst(b)
            while p:
                regs[p] = ('r', nid)
                raw.append((b, p, nid))
                nid += 1
                p = NextInst(p)
        f.blocks = []
        for b in order:
            B = Block()
            B.idx = bbs[b]
            B.insts = []
            B.phis = []
            B.preds = []
            B.succs = []
            B.fn = f
            f.blocks.append(B)
        for b, p, i in raw:
            I = Inst()
            I.id = i
            I.fn = f
            op = OPC[GetOpcode(p)]
            I.op = op
            I.ty = self.ty(TypeOf(p))
            I.x = None
            n = NumOps(p)
            B = f.blocks[bbs[b]]
            if op in ('call', 'invoke'):
                na = NumArgs(p)
                callee = self._operand(CalledVal(p), regs)
                if callee[0] == 'f' and callee[1].startswith(('llvm.dbg.', 'llvm.lifetime.',
                                                              'llvm.experimental.noalias',
                                                              'llvm.invariant')):
                    continue
                I.ops = [self._operand(GetOp(p, k), regs) for k in range(na)]
                bv = {}
                for k in range(na):
                    a = CallSiteEnumAttr(p, k + 1, BYVAL)
                    if a:
                        bv[k] = self.ty(AttrTypeVal(a))
                I.x = dict(callee=callee, byval=bv)
                if op == 'invoke':
                    I.x['normal'] = bbs[InvNormal(p)]
                    I.x['unwind'] = bbs[InvUnwind(p)]
            elif op == 'br':
                if NumSucc(p) == 1:
                    I.ops = []
                    I.x = (bbs[GetSucc(p, 0)],)
                else:
                    I.ops = [self._operand(GetOp(p, 0), regs)]
                    I.x = (bbs[GetSucc(p, 0)], bbs[GetSucc(p, 1)])
            elif op == 'switch':
                I.ops = [self._operand(GetOp(p, 0), regs)]
                cases = []
                for k in range(1, NumSucc(p)):
                    cases.append((self._operand(GetOp(p, 2 * k), regs)[2], bbs[GetSucc(p, k)]))
                I.x = (bbs[SwDefault(p)], cases)
            elif op == 'phi':
                I.ops = []
                I.x = [(bbs[IncomingBB(p, k)], self._operand(IncomingVal(p, k), regs))
                       for k in range(CountIncoming(p))]
            else:
                I.ops = [self._operand(GetOp(p, k), regs) for k in range(n)]
                if op == 'getelementptr':
                    I.x = self._gep(p, regs)
                elif op == 'icmp':
                    I.x = (PRED[ICmpPred(p)], self.ty(TypeOf(GetOp(p, 0))))
                elif op == 'fcmp':
                    I.x = (FCmpPred(p), self.ty(TypeOf(GetOp(p, 0))))
                elif op == 'alloca':
                    I.x = (self.ty(AllocTy(p)), GetAlign(p))
                elif op == 'load':
                    I.x = (I.ty, ORD[Ordering(p)], IsVolatile(p), GetAlign(p))
                elif op == 'store':
                    I.x = (self.ty(TypeOf(GetOp(p, 0))), ORD[Ordering(p)], IsVolatile(p),
                           GetAlign(p))
                elif op in ('extractvalue', 'insertvalue'):
                    k = NumIdx(p)
                    ix = GetIdx(p)
                    I.x = ([ix[j] for j in range(k)], self.ty(TypeOf(GetOp(p, 0))))
                elif op == 'landingpad':
                    I.x = ([self._operand(GetClause(p, k), regs) for k in range(NumClauses(p))],
                           bool(IsCleanup(p)))
                elif op == 'cmpxchg':
                    I.x = (ORD[CmpxSucc(p)], ORD[CmpxFail(p)], self.ty(TypeOf(GetOp(p, 1))))
                elif op == 'atomicrmw':
                    I.x = (RMW.get(RMWOp(p), '?'), ORD[Ordering(p)], I.ty)
                elif op == 'fence':
                    t = self.text(p)
                    I.x = t.strip().split()[-1]
                elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                            'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast'):
                    I.x = self.ty(TypeOf(GetOp(p, 0)))
                elif op in ('add', 'sub', 'mul', 'shl'):
                    I.x = (bool(GetNUW(p)), bool(GetNSW(p)))
                elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                    I.x = bool(GetExact(p))
                elif op in ('shufflevector', 'extractelement', 'insertelement'):
                    I.x = self.text(p)
            if op == 'phi':
                B.phis.append(I)
            else:
                B.insts.append(I)
        for B in f.blocks:
            t = B.insts[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                B.succs = [t.x['normal'], t.x['unwind']]
            for k, I in enumerate(B.insts):
                I.pos = (B.idx, k)
            for I in B.phis:
                I.pos = (B.idx, -1)
        for B in f.blocks:
            for s in set(B.succs):
                f.blocks[s].preds.append(B.idx)
        self._find_loops(f)

    def _find_loops(self, f):
        """Natural loops: f.loops = {header idx: set(body block idxs)} (irreducible: none)."""
        n = len(f.blocks)
        # reverse post-order
        seen, order = set(), []
        stack = [(0, iter(f.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in f.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        f.loops = {}
        for b in order:
            for s in f.blocks[b].succs:
                if s in rpo and dom(s, b):
                    body = f.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in f.blocks[x].preds if p in rpo)
        # back edges: (src, header)


def demangle(names):
    import subprocess
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return out.stdout.split('\n')
