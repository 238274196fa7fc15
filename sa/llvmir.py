"""Load LLVM bitcode through libLLVM's C API (ctypes) into plain Python objects."""
import ctypes as C
import re
import subprocess
import os

from build import AnalysisBroken, LLVM

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for n in ('/usr/lib/llvm-18/lib/libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
              '/usr/lib/llvm-18/lib/libLLVM.so', 'libLLVM-18.so.1', 'libLLVM-18.so'):
        try:
            L = C.CDLL(n)
            break
        except OSError:
            continue
    else:
        raise AnalysisBroken('libLLVM 18 not found')
    P, U, I, S, SZ = C.c_void_p, C.c_uint, C.c_int, C.c_char_p, C.c_size_t
    sig = {
        'LLVMContextCreate': (P, []),
        'LLVMCreateMemoryBufferWithContentsOfFile': (I, [S, P, P]),
        'LLVMParseIRInContext': (I, [P, P, P, P]),
        'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
        'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
        'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
        'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
        'LLVMGetValueName2': (P, [P, P]), 'LLVMGetBasicBlockName': (S, [P]),
        'LLVMGetInstructionOpcode': (I, [P]), 'LLVMGetNumOperands': (I, [P]),
        'LLVMGetOperand': (P, [P, U]), 'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (I, [P]),
        'LLVMPrintTypeToString': (P, [P]), 'LLVMPrintValueToString': (P, [P]),
        'LLVMGetIntTypeWidth': (U, [P]), 'LLVMDisposeMessage': (None, [P]),
        'LLVMGetAllocatedType': (P, [P]), 'LLVMGetGEPSourceElementType': (P, [P]),
        'LLVMGetICmpPredicate': (I, [P]), 'LLVMGetFCmpPredicate': (I, [P]),
        'LLVMGetValueKind': (I, [P]), 'LLVMConstIntGetSExtValue': (C.c_longlong, [P]),
        'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]),
        'LLVMCountIncoming': (U, [P]), 'LLVMGetIncomingValue': (P, [P, U]),
        'LLVMGetIncomingBlock': (P, [P, U]),
        'LLVMGetNumSuccessors': (U, [P]), 'LLVMGetSuccessor': (P, [P, U]),
        'LLVMGetDebugLocLine': (U, [P]), 'LLVMGetDebugLocFilename': (P, [P, P]),
        'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (U, [P]),
        'LLVMCountParams': (U, [P]), 'LLVMGetParam': (P, [P, U]),
        'LLVMIsDeclaration': (I, [P]), 'LLVMGetLinkage': (I, [P]),
        'LLVMGetInitializer': (P, [P]), 'LLVMIsGlobalConstant': (I, [P]),
        'LLVMGlobalGetValueType': (P, [P]), 'LLVMGetReturnType': (P, [P]),
        'LLVMIsFunctionVarArg': (I, [P]), 'LLVMGetConstOpcode': (I, [P]),
        'LLVMGetElementAsConstant': (P, [P, U]), 'LLVMGetArrayLength': (U, [P]),
        'LLVMGetStructName': (S, [P]), 'LLVMCountStructElementTypes': (U, [P]),
        'LLVMStructGetTypeAtIndex': (P, [P, U]), 'LLVMGetElementType': (P, [P]),
        'LLVMGetModuleDataLayout': (P, [P]), 'LLVMABISizeOfType': (C.c_ulonglong, [P, P]),
        'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, U]),
        'LLVMGetAsString': (P, [P, P]), 'LLVMIsConstantString': (I, [P]),
        'LLVMCreateEnumAttribute': (P, [P, U, C.c_ulonglong]),
        'LLVMGetEnumAttributeKindForName': (U, [S, SZ]),
        'LLVMAddAttributeAtIndex': (None, [P, U, P]),
        'LLVMRemoveEnumAttributeAtIndex': (None, [P, U, U]),
        'LLVMCreatePassBuilderOptions': (P, []), 'LLVMRunPasses': (P, [P, S, P, P]),
        'LLVMGetErrorMessage': (P, [P]),
        'LLVMSetLinkage': (None, [P, I]),
        'LLVMGetNumIndices': (U, [P]), 'LLVMGetIndices': (P, [P]),
        'LLVMIsInBounds': (I, [P]),
        'LLVMGetModuleContext': (P, [P]),
    }
    for k, (r, a) in sig.items():
        f = getattr(L, k)
        f.restype, f.argtypes = r, a
    _L = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem',
       18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# value kinds
VK_ARG, VK_BB, VK_MEMUSE, VK_MEMDEF, VK_MEMPHI, VK_FUNC, VK_GALIAS, VK_GIFUNC, VK_GVAR, VK_BLOCKADDR, \
    VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAGGZERO, VK_CDARRAY, VK_CDVEC, VK_CINT, VK_CFP, \
    VK_CNULL, VK_CTOKNONE, VK_MDASVAL, VK_ASM, VK_INST, VK_POISON = range(26)


class Val:
    __slots__ = ('kind', 'ty', 'name')


class Const(Val):
    """int constant (n), null pointer (n=0), undef, fp, zero aggregate, aggregate, data string"""
    __slots__ = ('n', 'elems', 'op', 'ops', 'srcty', 'text')

    def __init__(self, kind, ty):
        self.kind, self.ty = kind, ty
        self.n = None
        self.elems = None
        self.op = None
        self.ops = None
        self.srcty = None
        self.text = None
        self.name = None

    def __repr__(self):
        if self.kind == 'int':
            return '%s %s' % (self.ty, self.n)
        if self.kind == 'cexpr':
            return 'cexpr %s %s' % (self.op, self.ops)
        return '<%s>' % self.kind


class Global(Val):
    __slots__ = ('init', 'const', 'valty', 'linkage', 'has_init')

    def __init__(self, name):
        self.kind, self.name, self.ty = 'global', name, 'ptr'
        self.init = None

    def __repr__(self):
        return '@' + self.name


class Arg(Val):
    __slots__ = ('fn', 'idx')

    def __init__(self, fn, idx, ty, name):
        self.kind, self.fn, self.idx, self.ty, self.name = 'arg', fn, idx, ty, name

    def __repr__(self):
        return '%%%s' % self.name


class Inst(Val):
    __slots__ = ('op', 'ops', 'bb', 'line', 'file', 'pred', 'callee', 'srcty', 'incoming', 'succs', 'cases',
                 'idx', 'ptr', 'indices', 'dbgfn', '_users')

    def __init__(self):
        self.kind = 'inst'
        self.name = ''
        self.pred = self.callee = self.srcty = self.incoming = self.succs = self.cases = self.indices = None
        self.dbgfn = None
        self._users = None

    def __repr__(self):
        return '%%%s=%s' % (self.name or '#%d' % self.idx, self.op)

    @property
    def fn(self):
        return self.bb.fn

    def loc(self):
        return '%s:%d' % (self.file, self.line)

    # call helpers
    def cname(self):
        c = self.callee
        return c.name if c is not None and c.kind == 'func' else None


class Block:
    __slots__ = ('fn', 'name', 'insts', 'preds', 'idx', 'ptr')

    def __init__(self, fn, name, idx):
        self.fn, self.name, self.idx = fn, name, idx
        self.insts, self.preds = [], []

    @property
    def term(self):
        return self.insts[-1]

    def succs(self):
        return self.insts[-1].succs or []

    def __repr__(self):
        return '%s/%s' % (self.fn.name, self.name)


class Func(Val):
    __slots__ = ('blocks', 'args', 'decl', 'linkage', 'retty', 'vararg', 'ptr', 'mod', 'file', 'line', '_dom', '_pdom',
                 'fty')

    def __init__(self, name):
        self.kind, self.name, self.ty = 'func', name, 'ptr'
        self.blocks, self.args = [], []
        self._dom = self._pdom = None
        self.file, self.line = '?', 0

    def __repr__(self):
        return '@' + self.name

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def rets(self):
        return [b.term for b in self.blocks if b.insts and b.term.op == 'ret']


class Module:
    def __init__(self):
        self.funcs, self.globals = {}, {}
        self.structs = {}        # name -> list of field type strings
        self.ncalls = self.ninsts = 0

    def defined(self):
        return [f for f in self.funcs.values() if not f.decl]


def _s(L, p):
    s = C.cast(p, C.c_char_p).value.decode('utf8', 'replace')
    L.LLVMDisposeMessage(p)
    return s


def load(path, passes=None, inline=None, repo='/repo'):
    """passes: new-PM pipeline string run in process.  inline: predicate(func_name, is_local) -> bool,
    functions marked alwaysinline before 'always-inline' is run."""
    L = lib()
    ctx = L.LLVMContextCreate()
    mb = C.c_void_p()
    msg = C.c_void_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
        raise AnalysisBroken('cannot read ' + path)
    m = C.c_void_p()
    if L.LLVMParseIRInContext(ctx, mb, C.byref(m), C.byref(msg)):
        raise AnalysisBroken('cannot parse ' + path)

    def vname(v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf8', 'replace') if n.value else ''

    if inline is not None:
        kind = L.LLVMGetEnumAttributeKindForName(b'alwaysinline', 12)
        noinl = L.LLVMGetEnumAttributeKindForName(b'noinline', 8)
        f = L.LLVMGetFirstFunction(m)
        while f:
            if not L.LLVMIsDeclaration(f):
                L.LLVMRemoveEnumAttributeAtIndex(f, 0xFFFFFFFF, noinl)
                L.LLVMRemoveEnumAttributeAtIndex(f, 0xFFFFFFFF, kind)
                local = L.LLVMGetLinkage(f) in (8, 9)
                if inline(vname(f), local):
                    L.LLVMAddAttributeAtIndex(f, 0xFFFFFFFF, L.LLVMCreateEnumAttribute(ctx, kind, 0))
            f = L.LLVMGetNextFunction(f)
    if passes:
        opts = L.LLVMCreatePassBuilderOptions()
        e = L.LLVMRunPasses(m, passes.encode(), None, opts)
        if e:
            raise AnalysisBroken('passes failed: ' + C.cast(L.LLVMGetErrorMessage(e), C.c_char_p).value.decode())
    dl = L.LLVMGetModuleDataLayout(m)

    mod = Module()
    tcache = {}
    tptr = {}

    def tstr(t):
        s = tcache.get(t)
        if s is None:
            k = L.LLVMGetTypeKind(t)
            if k == 10 and L.LLVMGetStructName(t):       # struct
                s = '%' + L.LLVMGetStructName(t).decode()
                tcache[t] = s
                if s not in mod.structs:
                    n = L.LLVMCountStructElementTypes(t)
                    mod.structs[s] = None
                    el = [tstr(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                    mod.structs[s] = el
            else:
                if k == 11:                              # array: register element type
                    tstr(L.LLVMGetElementType(t))
                s = _s(L, L.LLVMPrintTypeToString(t))
                if ' = type' in s:
                    s = s.split(' = type')[0]
            tcache[t] = s
            tptr[s] = t
        return s

    sizes = {}

    def size_of(ts):
        r = sizes.get(ts)
        if r is None:
            t = tptr.get(ts)
            r = L.LLVMABISizeOfType(dl, t) if t else None
            sizes[ts] = r
        return r

    def field_off(ts, i):
        return L.LLVMOffsetOfElement(dl, tptr[ts], i)
    mod.size_of = size_of
    mod.field_off = field_off

    vals = {}
    # functions and globals
    f = L.LLVMGetFirstFunction(m)
    fl = []
    while f:
        F = Func(vname(f))
        F.ptr, F.mod = f, mod
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.linkage = L.LLVMGetLinkage(f)
        ft = L.LLVMGlobalGetValueType(f)
        F.retty = tstr(L.LLVMGetReturnType(ft))
        F.fty = tstr(ft)
        F.vararg = bool(L.LLVMIsFunctionVarArg(ft))
        for i in range(L.LLVMCountParams(f)):
            a = L.LLVMGetParam(f, i)
            A = Arg(F, i, tstr(L.LLVMTypeOf(a)), vname(a) or 'a%d' % i)
            vals[a] = A
            F.args.append(A)
        vals[f] = F
        mod.funcs[F.name] = F
        fl.append((f, F))
        f = L.LLVMGetNextFunction(f)
    g = L.LLVMGetFirstGlobal(m)
    gl = []
    while g:
        G = Global(vname(g))
        G.const = bool(L.LLVMIsGlobalConstant(g))
        G.valty = tstr(L.LLVMGlobalGetValueType(g))
        G.linkage = L.LLVMGetLinkage(g)
        G.has_init = not L.LLVMIsDeclaration(g)
        vals[g] = G
        mod.globals[G.name] = G
        gl.append((g, G))
        g = L.LLVMGetNextGlobal(g)

    def const(v):
        k = L.LLVMGetValueKind(v)
        ty = tstr(L.LLVMTypeOf(v))
        if k == VK_CINT:
            c = Const('int', ty)
            w = int(ty[1:])
            c.n = L.LLVMConstIntGetSExtValue(v) if w <= 64 else 0
            if w == 1:
                c.n &= 1
        elif k == VK_CNULL:
            c = Const('int', ty)
            c.n = 0
        elif k in (VK_UNDEF, VK_POISON):
            c = Const('undef', ty)
        elif k == VK_CAGGZERO:
            c = Const('zero', ty)
        elif k == VK_CFP:
            c = Const('fp', ty)
            c.text = _s(L, L.LLVMPrintValueToString(v))
        elif k in (VK_CDARRAY, VK_CDVEC):
            c = Const('data', ty)
            if L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                c.text = C.string_at(p, n.value)
            else:
                n = L.LLVMGetArrayLength(L.LLVMTypeOf(v))
                c.elems = [val(L.LLVMGetElementAsConstant(v, i)) for i in range(n)]
        elif k in (VK_CARRAY, VK_CSTRUCT, VK_CVEC):
            c = Const('agg', ty)
            vals[v] = c
            c.elems = [val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
        elif k == VK_CEXPR:
            c = Const('cexpr', ty)
            c.op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            c.ops = [val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if c.op == 'gep':
                c.srcty = tstr(L.LLVMGetGEPSourceElementType(v))
        elif k == VK_MDASVAL:
            c = Const('md', ty)
        else:
            c = Const('other%d' % k, ty)
        return c

    def val(v):
        r = vals.get(v)
        if r is None:
            r = vals[v] = const(v)
        return r

    for g, G in gl:
        if G.has_init:
            G.init = val(L.LLVMGetInitializer(g))

    fcache = {}
    for f, F in fl:
        if F.decl:
            continue
        bbs = {}
        b = L.LLVMGetFirstBasicBlock(f)
        n = 0
        raw = []
        while b:
            B = Block(F, (L.LLVMGetBasicBlockName(b) or b'').decode('utf8', 'replace') or 'b%d' % n, n)
            bbs[b] = B
            F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                I.bb = B
                I.ptr = i
                vals[i] = I
                raw.append((i, I))
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
            n += 1
        lastfile, lastline = '?', 0
        cnt = 0
        for i, I in raw:
            op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
            I.op = op
            I.idx = cnt
            cnt += 1
            I.ty = tstr(L.LLVMTypeOf(i))
            I.name = vname(i)
            ln = L.LLVMGetDebugLocLine(i)
            if ln:
                nn = C.c_uint()
                p = L.LLVMGetDebugLocFilename(i, C.byref(nn))
                fnm = C.string_at(p, nn.value).decode() if nn.value else '?'
                if fnm.startswith('./'):
                    fnm = fnm[2:]
                if fnm.startswith(repo + '/'):
                    fnm = fnm[len(repo) + 1:]
                I.file, I.line = fnm, ln
                lastfile, lastline = fnm, ln
                if F.line == 0:
                    F.file, F.line = fnm, ln
            else:
                I.file, I.line = lastfile, lastline
            if op == 'phi':
                I.incoming = [(val(L.LLVMGetIncomingValue(i, k)), bbs[L.LLVMGetIncomingBlock(i, k)])
                              for k in range(L.LLVMCountIncoming(i))]
                I.ops = [v for v, _ in I.incoming]
                continue
            nops = L.LLVMGetNumOperands(i)
            if op in ('br', 'switch'):
                I.succs = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
                if op == 'br':
                    I.ops = [val(L.LLVMGetOperand(i, 0))] if len(I.succs) == 2 else []
                else:
                    I.ops = [val(L.LLVMGetOperand(i, 0))]
                    # operands: cond, default, (val, bb)*
                    I.cases = [(val(L.LLVMGetOperand(i, 2 * k)).n, I.succs[k]) for k in range(1, len(I.succs))]
                continue
            if op == 'call':
                I.callee = val(L.LLVMGetCalledValue(i))
                I.ops = [val(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumArgOperands(i))]
                mod.ncalls += 1
                continue
            I.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
            if op == 'icmp':
                I.pred = PRED[L.LLVMGetICmpPredicate(i)]
            elif op == 'fcmp':
                I.pred = L.LLVMGetFCmpPredicate(i)
            elif op == 'gep':
                I.srcty = tstr(L.LLVMGetGEPSourceElementType(i))
            elif op == 'alloca':
                I.srcty = tstr(L.LLVMGetAllocatedType(i))
            elif op in ('extractvalue', 'insertvalue'):
                n_i = L.LLVMGetNumIndices(i)
                p = C.cast(L.LLVMGetIndices(i), C.POINTER(C.c_uint))
                I.indices = [p[k] for k in range(n_i)]
        mod.ninsts += len(raw)
        # drop debug intrinsics
        for B in F.blocks:
            B.insts = [I for I in B.insts if not (I.op == 'call' and I.callee.kind == 'func' and
                                                  I.callee.name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.stacksave',
                                                                            'llvm.stackrestore')))]
        for B in F.blocks:
            for s in B.succs():
                if B not in s.preds:
                    s.preds.append(B)
    mod.fieldnames = debug_fields(path)
    mod.argnames = {}
    return mod


_DI = re.compile(r'^!(\d+) = (?:distinct )?!(DICompositeType|DIDerivedType)\((.*)\)$')


def debug_fields(path):
    """struct name -> [field names], from debug info (textual)."""
    r = subprocess.run([LLVM + 'llvm-dis', path, '-o', '-'], capture_output=True, text=True)
    comp, der, lists = {}, {}, {}
    for line in r.stdout.splitlines():
        if not line.startswith('!'):
            continue
        mm = _DI.match(line)
        if mm:
            d = dict(re.findall(r'(\w+): ("[^"]*"|[^,()]+(?:\([^)]*\))?)', mm.group(3)))
            (comp if mm.group(2) == 'DICompositeType' else der)[mm.group(1)] = d
            continue
        mm = re.match(r'^!(\d+) = !\{(.*)\}$', line)
        if mm:
            lists[mm.group(1)] = re.findall(r'!(\d+)', mm.group(2))
    out = {}
    anon = {}
    for k, d in comp.items():
        if d.get('tag') not in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
            continue
        el = lists.get(d.get('elements', '').lstrip('!'), [])
        names = []
        for e in el:
            dd = der.get(e)
            if dd and dd.get('tag') == 'DW_TAG_member':
                names.append((int(dd.get('offset', '0')), dd.get('name', '""').strip('"'), dd.get('baseType', '').lstrip('!'),
                              int(dd.get('size', '0'))))
        name = d.get('name', '""').strip('"')
        anon[k] = names
        if name:
            out.setdefault(name, names)
    for k, d in der.items():
        if d.get('tag') == 'DW_TAG_typedef':
            b = d.get('baseType', '').lstrip('!')
            if b in anon:
                out.setdefault(d.get('name', '""').strip('"'), anon[b])
    return out


def field_name(mod, sty, idx):
    """name of LLVM struct field idx of type '%struct.X' (by offset), or str(idx)"""
    base = sty.lstrip('%')
    for p in ('struct.', 'union.'):
        if base.startswith(p):
            base = base[len(p):]
    base = re.sub(r'\.\d+$', '', base)
    fs = mod.fieldnames.get(base)
    if not fs:
        return str(idx)
    try:
        off = mod.field_off(sty, idx) * 8
    except KeyError:
        return str(idx)
    for o, n, _, _ in fs:
        if o == off:
            return n
    return str(idx)
