"""LLVM IR -> Python translator.

Loads a bitcode/IR module through the LLVM-C API (libLLVM-18, via ctypes) and
translates every function into the source of a Python function over the
engine's value domain (see engine.py):

  integers   Python ints (unsigned, reduced mod 2^w); i1 -> bool or SymBool
  pointers   Python ints: (allocation id << 32) | offset
  double     Python float (concrete, IEEE) or a symbolic scalar (sym.py)
  aggregates Python tuples

Nothing here knows about odeint: it is a plain IR translator and is validated
by running the harnesses concretely in both worlds (see check.py validate).
"""
import ctypes as C
import math

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


_ctx = _f("LLVMGetGlobalContext", P)()
CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
GetConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetNumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
GetElementType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecSize = _f("LLVMGetVectorSize", U, P)
CountStruct = _f("LLVMCountStructElementTypes", U, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, U)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GetDataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NumIncoming = _f("LLVMCountIncoming", U, P)
IncomingVal = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlk = _f("LLVMGetIncomingBlock", P, P, U)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", U, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
NumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
IsNull = _f("LLVMIsNull", C.c_int, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
IsUndef = _f("LLVMIsUndef", C.c_int, P)
IsPoison = _f("LLVMIsPoison", C.c_int, P)
GetAggElt = _f("LLVMGetAggregateElement", P, P, U)
IsConstString = _f("LLVMIsConstantString", C.c_int, P)
GetAsString = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(U))
DbgDir = _f("LLVMGetDebugLocDirectory", C.c_void_p, P, C.POINTER(U))
NumMask = _f("LLVMGetNumMaskElements", U, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, U)

# opcodes (llvm-c/Core.h)
OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
      8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
      18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
      28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
      37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
      43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
      53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
      59: 'landingpad'}
# type kinds
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
# value kinds
# LLVMValueKind, in order
_enum = ["arg", "bb", "muse", "mdef", "mphi", "func", "alias", "ifunc", "gvar", "ba", "cexpr", "carr", "cstruct", "cvec",
         "undef", "caz", "cda", "cdv", "cint", "cfp", "cnull", "ctok", "md", "asm", "inst", "poison", "ctarget"]
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']


def vname(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf8', 'replace') if n.value else ''


class Unsupported(Exception):
    pass


class Module:
    """Parsed module + memory layout of globals and addresses of functions."""

    def __init__(self, path):
        buf, err = P(), C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise Unsupported("cannot read %s: %s" % (path, err.value))
        m = P()
        if ParseIR(_ctx, buf, C.byref(m), C.byref(err)):
            raise Unsupported("cannot parse %s: %s" % (path, err.value))
        self.m = m.value
        self.dl = GetDataLayout(self.m)
        self.funcs = {}      # name -> ref
        self.faddr = {}      # ref -> address
        self.addrf = {}      # address -> name
        self.gaddr = {}
        self.gsize = {}      # address -> (size, name)
        self.tycache = {}
        self.lines = set()   # (file, line) of /repo code translated
        self.funclines = {}
        aid = 16
        f = GetFirstFunction(self.m)
        while f:
            nm = vname(f)
            self.funcs[nm] = f
            self.faddr[f] = aid << 32
            self.addrf[aid << 32] = nm
            aid += 1
            f = GetNextFunction(f)
        g = GetFirstGlobal(self.m)
        gl = []
        while g:
            a = aid << 32
            self.gaddr[g] = a
            t = GlobalValueType(g)
            sz = self.size(t) if TK[TypeKind(t)] not in ('func',) else 0
            self.gsize[a] = (sz, vname(g))
            gl.append(g)
            aid += 1
            g = GetNextGlobal(g)
        self.globals = gl
        self.first_free_id = aid
        self.gname = {vname(g): self.gaddr[g] for g in gl}
        self.init_cells = {}
        self.ginit = set()
        for g in gl:
            if not IsDeclaration(g):
                ini = GetInitializer(g)
                if ini:
                    self.ginit.add(self.gaddr[g])
                    self._init(self.gaddr[g], ini)
            else:
                # external data (vtables of libstdc++ typeinfos ...): opaque
                self.gsize[self.gaddr[g]] = (max(64, self.gsize[self.gaddr[g]][0]), vname(g))
        self.race = '__kmpc_fork_call' in self.funcs   # record accesses of parallel regions
        self.src = {}
        self._fnid = {n: i for i, n in enumerate(self.funcs)}

    # ---- types
    def kind(self, t):
        return TK.get(TypeKind(t), '?%d' % TypeKind(t))

    def size(self, t):
        s = self.tycache.get(t)
        if s is None:
            s = self.tycache[t] = ABISize(self.dl, t)
        return s

    def tag(self, t):
        """cell tag for a scalar type"""
        k = self.kind(t)
        if k == 'double':
            return 'd'
        if k == 'float':
            return 'f'
        if k == 'ptr':
            return 8
        if k == 'int':
            return max(1, (IntWidth(t) + 7) // 8)
        return None

    # ---- constants
    def const_value(self, v):
        """Python value of a constant, or raise"""
        vk = _enum[ValueKind(v)]
        t = TypeOf(v)
        k = self.kind(t)
        if vk == 'cint':
            w = IntWidth(t)
            if w == 1:
                return bool(ConstZExt(v))
            if w > 64:
                s = C.string_at(PrintValue(v)).decode().split()[-1]
                return int(s) & ((1 << w) - 1)
            return ConstZExt(v)
        if vk == 'cfp':
            lost = C.c_int()
            return ConstReal(v, C.byref(lost))
        if vk == 'cnull':
            return 0
        if vk == 'func':
            return self.faddr[v]
        if vk == 'gvar':
            return self.gaddr[v]
        if vk == 'alias':
            return self.const_value(AliasGetAliasee(v))
        if vk in ('undef', 'poison'):
            if k in ('struct', 'array', 'vector'):
                return tuple(None for _ in range(self.nelts(t)))
            return None
        if vk == 'caz' or IsNull(v):
            return self.zero(t)
        if vk in ('cda', 'cdv', 'carr', 'cstruct', 'cvec'):
            return tuple(self.const_value(GetAggElt(v, i)) for i in range(self.nelts(t)))
        if vk == 'cexpr':
            op = OP[GetConstOpcode(v)]
            if op == 'gep':
                base = self.const_value(GetOperand(v, 0))
                return base + self.gep_const(v)
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.const_value(GetOperand(v, 0))
            if op in ('sub', 'add'):
                a = self.const_value(GetOperand(v, 0))
                b = self.const_value(GetOperand(v, 1))
                w = IntWidth(t)
                return (a - b if op == 'sub' else a + b) & ((1 << w) - 1)
            if op == 'trunc':
                return self.const_value(GetOperand(v, 0)) & ((1 << IntWidth(t)) - 1)
            raise Unsupported("constexpr " + op)
        raise Unsupported("constant kind " + vk)

    def nelts(self, t):
        k = self.kind(t)
        if k == 'struct':
            return CountStruct(t)
        if k == 'array':
            return ArrayLen(t)
        return VecSize(t)

    def elt(self, t, i):
        return StructElt(t, i) if self.kind(t) == 'struct' else GetElementType(t)

    def offs(self, t, i):
        if self.kind(t) == 'struct':
            return OffsetOf(self.dl, t, i)
        return i * self.size(GetElementType(t))

    def zero(self, t):
        k = self.kind(t)
        if k in ('struct', 'array', 'vector'):
            return tuple(self.zero(self.elt(t, i)) for i in range(self.nelts(t)))
        if k in ('double', 'float', 'x86_fp80'):
            return 0.0
        if k == 'int' and IntWidth(t) == 1:
            return False
        return 0

    def gep_const(self, v):
        t = GEPSrcTy(v)
        off = 0
        for i in range(1, GetNumOperands(v)):
            idx = self.const_value(GetOperand(v, i))
            w = IntWidth(TypeOf(GetOperand(v, i)))
            if idx >= 1 << (w - 1):
                idx -= 1 << w
            if i == 1:
                off += idx * self.size(t)
            else:
                off += self.offs(t, idx)
                t = self.elt(t, idx)
        return off

    def _init(self, addr, v):
        t = TypeOf(v)
        k = self.kind(t)
        if _enum[ValueKind(v)] in ('undef', 'poison'):
            return
        if k == 'array' and IsConstString(v):
            n = C.c_size_t()
            p = GetAsString(v, C.byref(n))
            for i, b in enumerate(C.string_at(p, n.value)):
                self.init_cells[addr + i] = (1, b)
            return
        if k in ('struct', 'array', 'vector'):
            n = self.nelts(t)
            for i in range(n):
                e = GetAggElt(v, i)
                if not e:
                    e = None
                    self._zero_cells(addr + self.offs(t, i), self.elt(t, i))
                else:
                    self._init(addr + self.offs(t, i), e)
            return
        self.init_cells[addr] = (self.tag(t), self.const_value(v))

    def _zero_cells(self, addr, t):
        k = self.kind(t)
        if k in ('struct', 'array', 'vector'):
            for i in range(self.nelts(t)):
                self._zero_cells(addr + self.offs(t, i), self.elt(t, i))
        else:
            self.init_cells[addr] = (self.tag(t), self.zero(t))

    # ---- function translation
    def translate(self, name):
        """Python source for function `name` (cached)"""
        s = self.src.get(name)
        if s is None:
            s = self.src[name] = FnGen(self, name).gen()
        return s

    def pyname(self, name):
        return 'fn_%d' % self._fnid[name]


def _tree(blocks, ind, out):
    """binary decision tree over contiguous block numbers"""
    if len(blocks) == 1:
        for l in blocks[0][1]:
            out.append(ind + l)
        return
    mid = len(blocks) // 2
    out.append(ind + 'if bb < %d:' % blocks[mid][0])
    _tree(blocks[:mid], ind + ' ', out)
    out.append(ind + 'else:')
    _tree(blocks[mid:], ind + ' ', out)


class FnGen:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.f = mod.funcs[name]
        self.ids = {}
        self.bbid = {}
        self.calls = set()

    def gen(self):
        m, f = self.mod, self.f
        n = CountParams(f)
        params = []
        for i in range(n):
            p = GetParam(f, i)
            self.ids[p] = 'a%d' % i
            params.append('a%d' % i)
        bbs = []
        b = GetFirstBB(f)
        while b:
            self.bbid[b] = len(bbs)
            bbs.append(b)
            b = GetNextBB(b)
        insts = {}
        k = 0
        for b in bbs:
            lst = []
            i = GetFirstInst(b)
            while i:
                self.ids[i] = 'v%d' % k
                k += 1
                lst.append(i)
                i = GetNextInst(i)
            insts[b] = lst
        blocks = []
        for b in bbs:
            self.cur = b
            self.out = []
            for i in insts[b]:
                n0 = len(self.out)
                try:
                    self.inst(i)
                except Unsupported as ex:
                    del self.out[n0:]
                    self.e('unsupported(%r)' % ('%s in %s' % (ex, self.name)))
                    break
            blocks.append((self.bbid[b], self.out))
        out = ['def %s(%s):' % (m.pyname(self.name), ', '.join(params))]
        if len(blocks) == 1 and not any('bb =' in l for l in blocks[0][1]):
            for l in blocks[0][1]:
                out.append(' ' + l)
        else:
            out.append(' bb = 0')
            out.append(' while True:')
            out.append('  tick()')
            _tree(blocks, '  ', out)
        return '\n'.join(out) + '\n'

    def e(self, s):
        self.out.append(s)

    def val(self, v):
        n = self.ids.get(v)
        if n is not None:
            return n
        vk = _enum[ValueKind(v)]
        if vk in ('undef', 'poison'):
            k = self.mod.kind(TypeOf(v))
            if k in ('double', 'float'):
                return 'undef_f()'
            if k in ('int', 'ptr'):
                return '0' if not (k == 'int' and IntWidth(TypeOf(v)) == 1) else 'False'
        if vk == 'md':
            return 'None'
        if vk == 'func':
            self.calls.add(vname(v))
        c = self.mod.const_value(v)
        return self.lit(c)

    def lit(self, c):
        if isinstance(c, float):
            if math.isinf(c):
                return 'INF' if c > 0 else '(-INF)'
            if math.isnan(c):
                return 'NAN'
            r = repr(c)
            return '(%s)' % r if r[0] == '-' else r
        if isinstance(c, tuple):
            return '(' + ''.join(self.lit(x) + ', ' for x in c) + ')'
        return repr(c)

    def jump(self, to, ind=''):
        """phi moves + branch"""
        frm = self.cur
        i = GetFirstInst(to)
        lhs, rhs = [], []
        while i and OP[GetOpcode(i)] == 'phi':
            for j in range(NumIncoming(i)):
                if IncomingBlk(i, j) == frm:
                    lhs.append(self.ids[i])
                    rhs.append(self.val(IncomingVal(i, j)))
                    break
            i = GetNextInst(i)
        pairs = [(a, b) for a, b in zip(lhs, rhs) if a != b]
        if pairs:
            self.e(ind + ', '.join(a for a, _ in pairs) + ' = ' + ', '.join(b for _, b in pairs))
        self.e(ind + 'bb = %d' % self.bbid[to])
        self.e(ind + 'continue')

    def w(self, v):
        return IntWidth(TypeOf(v))

    def sgn(self, v, w=None):
        """signed reading of an int value"""
        w = w or self.w(v)
        if v not in self.ids and _enum[ValueKind(v)] == 'cint':
            c = self.mod.const_value(v)
            if c is True:
                return '-1'
            if c >= 1 << (w - 1):
                c -= 1 << w
            return str(c) if c >= 0 else '(%d)' % c
        n = self.val(v)
        if w == 1:
            return '(-1 if %s else 0)' % n
        return '(%s if %s < %d else %s-%d)' % (n, n, 1 << (w - 1), n, 1 << w)

    def inst(self, i):
        m = self.mod
        op = OP.get(GetOpcode(i))
        t = TypeOf(i)
        k = m.kind(t)
        d = self.ids[i]
        ln = DbgLine(i)
        if ln:
            n = U()
            p = DbgFile(i, C.byref(n))
            fn = C.string_at(p, n.value).decode('utf8', 'replace') if n.value else ''
            if fn.startswith('/repo/') or '/odeint/' in fn:
                m.lines.add((fn, ln))

        def o(j):
            return self.val(GetOperand(i, j))
        if op == 'phi':
            return
        if k == 'vector' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'add', 'sub', 'and', 'or', 'xor'):
            if op == 'fneg':
                self.e('%s = tuple([-x for x in %s])' % (d, o(0)))
            elif op[0] == 'f':
                s = {'fadd': 'x + y', 'fsub': 'x - y', 'fmul': 'x * y', 'fdiv': 'fdiv(x, y)'}[op]
                self.e('%s = tuple([%s for x, y in zip(%s, %s)])' % (d, s, o(0), o(1)))
            else:
                ew = IntWidth(GetElementType(t))
                s = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}[op]
                self.e('%s = tuple([(x %s y) & %d for x, y in zip(%s, %s)])' % (d, s, (1 << ew) - 1, o(0), o(1)))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            if k == 'float':
                e = {'fadd': 'f32(%s + %s)', 'fsub': 'f32(%s - %s)', 'fmul': 'f32(%s * %s)', 'fdiv': 'f32(fdiv(%s, %s))',
                     'frem': 'f32(frem(%s, %s))'}
                self.e('%s = ' % d + (e[op] % (o(0), o(1)) if op != 'fneg' else '-' + o(0)))
            elif op == 'fneg':
                self.e('%s = -%s' % (d, o(0)))
            elif op == 'fdiv':
                self.e('%s = fdiv(%s, %s)' % (d, o(0), o(1)))
            elif op == 'frem':
                self.e('%s = frem(%s, %s)' % (d, o(0), o(1)))
            else:
                self.e('%s = %s %s %s' % (d, o(0), {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], o(1)))
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = GetOperand(i, 0), GetOperand(i, 1)
            w = IntWidth(t)
            M = (1 << w) - 1
            if w == 1:
                s = {'and': '&', 'or': '|', 'xor': '^', 'add': '^', 'sub': '^', 'mul': '&'}.get(op)
                if not s:
                    raise Unsupported('i1 ' + op)
                if op in ('and', 'or', 'xor'):
                    self.e('%s = %s %s %s' % (d, o(0), s, o(1)))
                else:
                    self.e('%s = bool(%s) %s bool(%s)' % (d, o(0), s, o(1)))
                return
            if op in ('add', 'sub', 'mul'):
                self.e('%s = (%s %s %s) & %d' % (d, o(0), {'add': '+', 'sub': '-', 'mul': '*'}[op], o(1), M))
            elif op in ('and', 'or', 'xor'):
                self.e('%s = %s %s %s' % (d, o(0), {'and': '&', 'or': '|', 'xor': '^'}[op], o(1)))
            elif op == 'shl':
                self.e('%s = (%s << %s) & %d' % (d, o(0), o(1), M))
            elif op == 'lshr':
                self.e('%s = %s >> %s' % (d, o(0), o(1)))
            elif op == 'ashr':
                self.e('%s = (%s >> %s) & %d' % (d, self.sgn(a), o(1), M))
            elif op in ('udiv', 'urem'):
                self.e('%s = %s(%s, %s)' % (d, op, o(0), o(1)))
            else:
                self.e('%s = %s(%s, %s) & %d' % (d, op, self.sgn(a), self.sgn(b), M))
            return
        if op == 'icmp':
            p = ICMP[ICmpPred(i)]
            a, b = GetOperand(i, 0), GetOperand(i, 1)
            at = TypeOf(a)
            if m.kind(at) == 'vector':
                raise Unsupported('vector icmp')
            if m.kind(at) == 'int' and IntWidth(at) == 1:
                if p in ('eq', 'ne'):
                    self.e('%s = b_xor(%s, %s)%s' % (d, o(0), o(1), '' if p == 'ne' else ' ^ True'))
                else:
                    raise Unsupported('icmp i1 ' + p)
                return
            s = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=',
                 'slt': '<', 'sle': '<='}[p]
            if p[0] == 's':
                w = 64 if m.kind(at) == 'ptr' else IntWidth(at)
                self.e('%s = %s %s %s' % (d, self.sgn(a, w), s, self.sgn(b, w)))
            else:
                self.e('%s = %s %s %s' % (d, o(0), s, o(1)))
            return
        if op == 'fcmp':
            p = FCMP[FCmpPred(i)]
            if m.kind(TypeOf(GetOperand(i, 0))) == 'vector':
                raise Unsupported('vector fcmp')
            a, b = o(0), o(1)
            simple = {'oeq': '==', 'ogt': '>', 'oge': '>=', 'olt': '<', 'ole': '<=', 'une': '!='}
            neg = {'ugt': '<=', 'uge': '<', 'ult': '>=', 'ule': '>'}
            if p in simple:
                self.e('%s = %s %s %s' % (d, a, simple[p], b))
            elif p in neg:
                self.e('%s = (%s %s %s) ^ True' % (d, a, neg[p], b))
            elif p == 'one':
                self.e('%s = (%s != %s) & ordered(%s, %s)' % (d, a, b, a, b))
            elif p == 'ueq':
                self.e('%s = (%s == %s) | (ordered(%s, %s) ^ True)' % (d, a, b, a, b))
            elif p == 'ord':
                self.e('%s = ordered(%s, %s)' % (d, a, b))
            elif p == 'uno':
                self.e('%s = ordered(%s, %s) ^ True' % (d, a, b))
            else:
                self.e('%s = %s' % (d, p == 'true'))
            return
        if op == 'select':
            self.e('%s = sel(%s, %s, %s)' % (d, o(0), o(1), o(2)) if k in ('double', 'float') else
                   '%s = (%s if %s else %s)' % (d, o(1), o(0), o(2)))
            return
        if op == 'load':
            self.load(d, t, o(0))
            return
        if op == 'store':
            v = GetOperand(i, 0)
            self.store(TypeOf(v), o(0), o(1))
            return
        if op == 'gep':
            self.gep(i, d)
            return
        if op == 'alloca':
            ty = AllocatedType(i)
            n = GetOperand(i, 0)
            self.e('%s = alloca(%d * %s)' % (d, m.size(ty), self.val(n)))
            return
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            a = GetOperand(i, 0)
            at = TypeOf(a)
            if k == 'vector' or m.kind(at) == 'vector':
                if op in ('freeze',):
                    self.e('%s = %s' % (d, o(0)))
                    return
                if op == 'bitcast' and k == 'vector' and m.kind(at) == 'vector' and VecSize(t) == VecSize(at):
                    te, ae = GetElementType(t), GetElementType(at)
                    kt, ka = m.kind(te), m.kind(ae)
                    f = 'x' if kt == ka else 'bits2f(x, %r)' % m.tag(te) if ka == 'int' else 'f2bits(x, %r)' % m.tag(ae)
                    self.e('%s = tuple([%s for x in %s])' % (d, f, o(0)))
                    return
                raise Unsupported('vector ' + op)
            if op == 'trunc':
                w = IntWidth(t)
                if w == 1:
                    self.e('%s = bool(%s & 1)' % (d, o(0)))
                else:
                    self.e('%s = %s & %d' % (d, o(0), (1 << w) - 1))
            elif op == 'zext':
                self.e('%s = (1 if %s else 0)' % (d, o(0)) if IntWidth(at) == 1 else '%s = %s' % (d, o(0)))
            elif op == 'sext':
                self.e('%s = %s & %d' % (d, self.sgn(a), (1 << IntWidth(t)) - 1))
            elif op == 'bitcast':
                if k in ('double', 'float') and m.kind(at) == 'int':
                    self.e('%s = bits2f(%s, %r)' % (d, o(0), m.tag(t)))
                elif m.kind(at) in ('double', 'float') and k == 'int':
                    self.e('%s = f2bits(%s, %r)' % (d, o(0), m.tag(at)))
                else:
                    self.e('%s = %s' % (d, o(0)))
            else:
                self.e('%s = %s' % (d, o(0)))
            return
        if op in ('sitofp', 'uitofp'):
            a = GetOperand(i, 0)
            e = 'float(%s)' % (self.sgn(a) if op == 'sitofp' else o(0))
            self.e('%s = %s' % (d, e if k == 'double' else 'f32(%s)' % e))
            return
        if op in ('fptosi', 'fptoui'):
            self.e('%s = fptoint(%s, %d, %s)' % (d, o(0), IntWidth(t), op == 'fptosi'))
            return
        if op == 'fpext':
            self.e('%s = %s' % (d, o(0)))
            return
        if op == 'fptrunc':
            self.e('%s = f32(%s)' % (d, o(0)))
            return
        if op == 'extractvalue':
            n = NumIndices(i)
            ix = GetIndices(i)
            self.e('%s = %s%s' % (d, o(0), ''.join('[%d]' % ix[j] for j in range(n))))
            return
        if op == 'insertvalue':
            n = NumIndices(i)
            ix = [GetIndices(i)[j] for j in range(n)]
            self.e('%s = insval(%s, %s, %r)' % (d, o(0), o(1), ix))
            return
        if op == 'extractelement':
            self.e('%s = %s[%s]' % (d, o(0), o(1)))
            return
        if op == 'insertelement':
            self.e('%s = insval(%s, %s, [%s])' % (d, o(0), o(1), o(2)))
            return
        if op == 'shufflevector':
            mask = [MaskVal(i, j) for j in range(NumMask(i))]
            self.e('%s = (lambda q: tuple([q[j] if j >= 0 else None for j in %r]))(tuple(%s) + tuple(%s))' % (d, mask, o(0), o(1)))
            return
        if op == 'ret':
            self.e('return %s' % (o(0) if GetNumOperands(i) else 'None'))
            return
        if op == 'br':
            if NumSucc(i) == 1:
                self.jump(Succ(i, 0))
            else:
                self.e('if %s:' % o(0))
                self.jump(Succ(i, 0), ' ')
                self.jump(Succ(i, 1))
            return
        if op == 'switch':
            n = NumSucc(i)
            c = o(0)
            for j in range(1, n):
                self.e('if %s == %s:' % (c, self.val(GetOperand(i, 2 * j))))
                self.jump(Succ(i, j), ' ')
            self.jump(Succ(i, 0))
            return
        if op == 'unreachable':
            self.e('unreachable(%r)' % self.name)
            return
        if op in ('call', 'invoke'):
            self.call(i, d, op, k)
            return
        if op == 'landingpad':
            cl = []
            for j in range(NumClauses(i)):
                c = GetClause(i, j)
                if m.kind(TypeOf(c)) == 'array':
                    cl.append(('filter', tuple(x if x is not None else 0 for x in m.const_value(c))))
                else:
                    cl.append(('catch', m.const_value(c)))
            self.e('%s = landingpad(exc, %r, %r)' % (d, cl, bool(IsCleanup(i))))
            return
        if op == 'resume':
            self.e('resume(%s)' % o(0))
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            # only used for reference counts: add/sub/xchg
            s = C.string_at(PrintValue(i)).decode()
            kind = s.split('atomicrmw')[1].split()[0]
            kind = s.split('atomicrmw')[1].split()[1] if kind == 'volatile' else kind
            w = IntWidth(t)
            tg = m.tag(t)
            self.e('%s = ld(%s, %r)' % (d, o(0), tg))
            ex = {'add': '(%s + %s) & %d' % (d, o(1), (1 << w) - 1), 'sub': '(%s - %s) & %d' % (d, o(1), (1 << w) - 1),
                  'xchg': o(1), 'or': '%s | %s' % (d, o(1)), 'and': '%s & %s' % (d, o(1))}[kind]
            self.e('st(%s, %r, %s)' % (o(0), tg, ex))
            return
        raise Unsupported('instruction %s' % op)

    def load(self, d, t, p):
        m = self.mod
        k = m.kind(t)
        if k in ('struct', 'array', 'vector'):
            parts = []
            for j in range(m.nelts(t)):
                x = '%s_%d' % (d, j)
                self.load(x, m.elt(t, j), '(%s + %d)' % (p, m.offs(t, j)))
                parts.append(x)
            self.e('%s = (%s)' % (d, ''.join(x + ', ' for x in parts)))
            return
        tg = m.tag(t)
        if tg is None:
            raise Unsupported('load ' + k)
        if m.race:
            self.e('if race: acc(%s, %d, 0)' % (p, m.size(t)))
        self.e('c = M.get(%s)' % p)
        if k == 'int' and IntWidth(t) == 1:
            self.e('%s = c[1] if c is not None and c[0] == 1 else ld(%s, 1)' % (d, p))
            self.e('if %s.__class__ is int: %s = bool(%s & 1)' % (d, d, d))
        else:
            self.e('%s = c[1] if c is not None and c[0] == %r else ld(%s, %r)' % (d, tg, p, tg))
            if k == 'int' and IntWidth(t) % 8:
                self.e('%s &= %d' % (d, (1 << IntWidth(t)) - 1))

    def store(self, t, v, p):
        m = self.mod
        k = m.kind(t)
        if k in ('struct', 'array', 'vector'):
            for j in range(m.nelts(t)):
                self.store(m.elt(t, j), '%s[%d]' % (v, j), '(%s + %d)' % (p, m.offs(t, j)))
            return
        tg = m.tag(t)
        if tg is None:
            raise Unsupported('store ' + k)
        if k == 'int' and IntWidth(t) == 1:
            v = '(1 if %s else 0)' % v
        if m.race:
            self.e('if race: acc(%s, %d, 1)' % (p, m.size(t)))
        self.e('c = M.get(%s)' % p)
        self.e('if c is not None and c[0] == %r: M[%s] = (%r, %s)' % (tg, p, tg, v))
        self.e('else: st(%s, %r, %s)' % (p, tg, v))

    def gep(self, i, d):
        m = self.mod
        t = GEPSrcTy(i)
        if m.kind(TypeOf(i)) == 'vector':
            raise Unsupported('vector gep')
        const = 0
        terms = [self.val(GetOperand(i, 0))]
        for j in range(1, GetNumOperands(i)):
            iv = GetOperand(i, j)
            isc = iv not in self.ids
            if j == 1:
                sz = m.size(t)
            elif m.kind(t) == 'struct':
                idx = m.const_value(iv)
                const += m.offs(t, idx)
                t = m.elt(t, idx)
                continue
            else:
                t = m.elt(t, 0)
                sz = m.size(t)
            if isc:
                c = m.const_value(iv)
                w = self.w(iv)
                if c >= 1 << (w - 1):
                    c -= 1 << w
                const += c * sz
            else:
                s = self.sgn(iv)
                terms.append('%s * %d' % (s, sz) if sz != 1 else s)
        if const:
            terms.append(str(const))
        self.e('%s = %s' % (d, ' + '.join(terms)))

    def call(self, i, d, op, k):
        m = self.mod
        cv = CalledValue(i)
        n = NumArgs(i)
        vk = _enum[ValueKind(cv)]
        name = None
        if vk == 'alias':
            al = AliasGetAliasee(cv)
            while _enum[ValueKind(al)] == 'alias':
                al = AliasGetAliasee(al)
            cv = al
            vk = _enum[ValueKind(cv)]
        if vk == 'func':
            name = vname(cv)
        if name and name.startswith(('llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                                     'llvm.stackrestore')):
            if op == 'invoke':
                self.jump(NormalDest(i))
            return
        args = ', '.join(self.val(GetOperand(i, j)) for j in range(n))
        if name is None:
            if vk == 'asm':
                txt = C.string_at(PrintValue(cv)).decode().split('"')[1]
                w = txt.split()
                if n == 2 and len(w) == 3 and w[0] in ('maxpd', 'minpd', 'maxps', 'minps') and w[1].rstrip(',') == '$1' and w[2] == '$0':
                    # SSE: the destination (tied to the second operand) compared with the source, the source where neither is
                    self.e('%s = tuple([sel(y %s x, y, x) for x, y in zip(%s)])' % (d, '>' if w[0][:3] == 'max' else '<', args))
                elif txt.strip():
                    self.e('raise Unsup(%r)' % ('inline assembly ' + txt))
                else:
                    self.e('%s = 0' % d)   # a barrier for the compiler
                return
            e = 'icall(%s%s)' % (self.val(cv), ', ' + args if args else '')
        elif IsDeclaration(cv):
            e = 'ext[%r](%s)' % (name, args)
            self.calls.add(name)
        else:
            self.calls.add(name)
            e = '%s(%s)' % (m.pyname(name), args)
        asg = '%s = ' % d if k != 'void' else ''
        if op == 'call':
            self.e(asg + e)
            return
        self.e('try:')
        self.e(' %s%s' % (asg, e))
        self.e('except CxxExc as exc_:')
        self.e(' exc = exc_')
        self.jump(UnwindDest(i), ' ')
        self.jump(NormalDest(i))
