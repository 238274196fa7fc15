"""A01: data of an opened file is never written and never exported writable."""
from common import Program, strip_dot, cstr, AnalysisBroken
from taint import Provenance

# external functions that write through argument k
WRITERS = {'memcpy': [0], 'memmove': [0], 'memset': [0], '__memcpy_chk': [0], '__memmove_chk': [0], '__memset_chk': [0],
           'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'stpcpy': [0], 'sprintf': [0], 'snprintf': [0], 'vsnprintf': [0],
           'fread': [0], 'read': [1], 'pread': [1], 'recv': [1], 'fgets': [0], 'qsort': [0], 'qsort_r': [0], 'swab': [1], 'bzero': [0],
           'free': [0], 'realloc': [0], 'PyMem_Free': [0], 'PyMem_Realloc': [0], 'PyObject_Free': [0],
           'PyUnicode_AsWideChar': [1], 'explicit_bzero': [0], 'getline': [0]}
FILE_WRITERS = {'fwrite': 3, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fprintf': 0, 'vfprintf': 0, 'ftruncate': 0, 'ftruncate64': 0,
                'write': 0, 'pwrite': 0, 'fallocate': 0, 'posix_fallocate': 0}
READ_MODES = {'r', 'rb', 'rbe', 're'}


def run(rep, tier):
    rep.rule = ('whole-program pointer provenance: every pointer that may point into mapped file data is never the target of a '
                'store, of a writing libc call, of free, or of a writable buffer export; files are opened and mapped read-only')
    rep.assumptions = ['extension modules outside this repository do not write through the exported C API pointers',
                       'external C functions outside the writer list do not write through their pointer arguments']
    variants = [True] if tier == 'quick' else [True, False]
    for nd in variants:
        prog = Program(ndebug=nd, inline=False)
        analyse(rep, prog, '' if nd else '[asserts] ')
    rep.floor('mappings (mmap calls)', 1)
    rep.floor('file-data pointers (SSA values)', 150)
    rep.floor('file-data struct fields', 5)
    rep.floor('read opens (fopen)', 1)
    rep.floor('buffer exports of file data', 1)


def analyse(rep, prog, tag):
    mod = prog.mod
    pv = Provenance(prog)

    def seed(i):
        return i.cname() in ('mmap', 'mmap64')
    pv.solve(seed)
    rep.count('file-data pointers (SSA values)', len(pv.vals))
    rep.count('file-data struct fields', len([c for c in pv.cells if c[0] == 'fld']))
    rep.count('functions', len(prog.funcs))
    rep.notes.append(tag + 'file-data fields: ' + ', '.join(sorted(pv.cellname(c) for c in pv.cells if c[0] == 'fld')))
    for f in mod.defined():
        for i in f.insts():
            where = '%s%s in %s' % (tag, i.loc(), f.name)
            if i.op == 'store':
                rep.count('stores')
                rep.check(i.ops[1] not in pv.vals, 'store:%s' % f.name,
                          '%s: store through a pointer into file data (%s)' % (where, pv.explain(i.ops[1])))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                rep.check(i.ops[0] not in pv.vals, 'store:%s' % f.name, '%s: atomic write into file data' % where)
            elif i.op == 'call':
                call(rep, prog, pv, i, where)


def call(rep, prog, pv, i, where):
    f = i.fn
    n = strip_dot(i.cname())
    if n is None:
        return
    if n in ('mmap', 'mmap64'):
        rep.count('mappings (mmap calls)')
        prot = i.ops[2]
        rep.check(prot.kind == 'int' and not prot.n & 2, 'mmap:%s' % f.name,
                  '%s: file mapped with a writable (or non-constant) protection' % where)
    elif n in ('mprotect', 'pkey_mprotect'):
        rep.check(i.ops[0] not in pv.vals, 'mprotect:%s' % f.name, '%s: protection of mapped file data changed' % where)
    elif n in ('fopen', 'fopen64', 'freopen'):
        rep.count('read opens (fopen)')
        mode = cstr(i.ops[1])
        if flows_to_mmap(prog, i):
            rep.check(mode in READ_MODES, 'fopen:%s' % f.name, '%s: file that gets mapped is opened with mode %r' % (where, mode))
    elif n in ('open', 'open64'):
        if flows_to_mmap(prog, i):
            rep.check(i.ops[1].kind == 'int' and i.ops[1].n & 3 == 0 and not i.ops[1].n & (0o100 | 0o1000), 'fopen:%s' % f.name,
                      '%s: file that gets mapped is opened with write or create flags' % where)
    elif n.startswith('llvm.mem'):
        rep.count('memory intrinsics')
        rep.check(i.ops[0] not in pv.vals, 'store:%s' % f.name, '%s: %s into file data (%s)' % (where, n, pv.explain(i.ops[0])))
    elif n in WRITERS:
        rep.count('writing libc calls')
        for k in WRITERS[n]:
            if k < len(i.ops):
                rep.check(i.ops[k] not in pv.vals, '%s:%s' % (n, f.name),
                          '%s: %s writes/frees file data (%s)' % (where, n, pv.explain(i.ops[k])))
    elif n == 'PyBuffer_FillInfo':
        rep.count('buffer exports')
        if i.ops[2] in pv.vals:
            rep.count('buffer exports of file data')
            rep.check(i.ops[4].kind == 'int' and i.ops[4].n != 0, 'export:%s' % f.name,
                      '%s: file data exported through the buffer protocol without the read-only flag' % where)
    elif n == 'PyMemoryView_FromMemory':
        if i.ops[0] in pv.vals:
            rep.count('buffer exports of file data')
            rep.check(i.ops[2].kind == 'int' and i.ops[2].n == 0x100, 'export:%s' % f.name,
                      '%s: file data exported as a writable memoryview' % where)
    if n in FILE_WRITERS:
        k = FILE_WRITERS[n]
        if k < len(i.ops) and from_mapped_handle(prog, i.ops[k]):
            rep.bad('fwrite:%s' % f.name, '%s: %s on the handle of an opened file' % (where, n))
    # a hand-filled Py_buffer
    # (stores to Py_buffer.buf of a file pointer need readonly = constant 1 in the same function)


def flows_to_mmap(prog, i):
    """the opened handle's owner maps it: some function reachable in the same file calls mmap on it.
    All handles opened by functions that (transitively) share a translation unit with mmap qualify."""
    files = {c.fn.file for c in prog.callsites('mmap') + prog.callsites('mmap64')}
    return i.fn.file in files


def from_mapped_handle(prog, v):
    """v is loaded from the handle field of the reader struct"""
    if v.kind == 'inst' and v.op == 'call' and v.cname() == 'fileno':
        return from_mapped_handle(prog, v.ops[0])
    if v.kind == 'inst' and v.op == 'load' and v.ops[0].kind == 'inst' and v.ops[0].op == 'gep':
        g = v.ops[0]
        return g.srcty == '%struct.pointless_t'
    return False
