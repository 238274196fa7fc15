"""A10: no hidden mutable state shared between independent objects."""
from common import Program, AnalysisBroken, strip_dot

NONREENTRANT = {'strtok', 'strerror', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48',
                'tmpnam', 'tempnam', 'getenv', 'setenv', 'putenv', 'setlocale', 'chdir', 'umask', 'readdir', 'signal', 'sigaction', 'atexit',
                'hsearch', 'lgamma', 'basename', 'dirname', 'getpwnam', 'getopt', 'nl_langinfo', 'fcvt', 'ecvt', 'gcvt', 'l64a', 'inet_ntoa', 'mallopt'}
# external functions that only read what they are given
READS = ('Py', '_Py', 'str', 'mem', 'printf', 'fprintf', 'fwrite', 'fputs', 'puts', 'abort', '__assert', 'llvm.va')
INIT_ONLY = ('PyModule_Create2', 'PyType_Ready')


def run(rep, tier):
    rep.rule = ('effect analysis: every store, writing call or escape of the address of each global / function-static variable of the '
                'linked program is found; only module initialisation and Python-owned tables may be written, and no process-global '
                'libc state is used')
    for nd in ([True] if tier == 'quick' else [True, False]):
        analyse(rep, Program(ndebug=nd, inline=False), '' if nd else '[asserts] ', nd)
    rep.floor('functions', 300)
    rep.floor('global variables', 100)
    rep.floor('mutable global variables', 20)
    rep.assumptions = ['CPython mutates its own type objects and method tables under its own locking']


def analyse(rep, prog, tag, nd):
    mod = prog.mod
    glob = [g for g in mod.globals.values() if g.has_init]
    rep.count('functions', len(prog.funcs))
    rep.count('global variables', len(glob))
    mut = {g for g in glob if not g.const}
    rep.count('mutable global variables', len(mut))
    # functions reached only from module initialisation
    cg = prog.callgraph()
    init = {f.name for f in prog.funcs if f.name.startswith('PyInit_')}
    if nd and not init:
        raise AnalysisBroken('module initialisation function not found')
    callers = {}
    for f, cs in cg.items():
        for c in cs:
            callers.setdefault(c, set()).add(f)
    ch = True
    while ch:
        ch = False
        for f in prog.funcs:
            if f.name not in init and f.name not in prog.addr_taken and callers.get(f.name) and callers[f.name] <= init:
                init.add(f.name)
                ch = True
    # SSA values derived from the address of a mutable project global
    pts = {}
    argpts = {}
    retpts = {}
    ownable = {g for g in mut if not pyowned(g)}
    funcs = [f for f in mod.defined() if prog.is_project(f)]

    def get(v):
        if v.kind == 'global':
            return {v} if v in ownable or v in mut else set()
        if v.kind == 'cexpr' and v.ops:
            s = set()
            for o in v.ops:
                s |= get(o)
            return s
        if v.kind == 'arg':
            return argpts.get(v, set())
        return pts.get(v, set())
    ch = True
    n = 0
    while ch and n < 30:
        ch = False
        n += 1
        for f in funcs:
            for i in f.insts():
                new = set()
                if i.op in ('gep', 'bitcast', 'phi', 'ptrtoint', 'inttoptr'):
                    for o in i.ops:
                        new |= get(o)
                elif i.op == 'select':
                    new = get(i.ops[1]) | get(i.ops[2])
                elif i.op == 'ret' and i.ops:
                    r = get(i.ops[0])
                    if not r <= retpts.get(f, set()):
                        retpts.setdefault(f, set()).update(r)
                        ch = True
                elif i.op == 'call':
                    for t in prog.targets(i):
                        if t.decl or not prog.is_project(t):
                            continue
                        for a, o in zip(t.args, i.ops):
                            s = get(o)
                            if not s <= argpts.get(a, set()):
                                argpts.setdefault(a, set()).update(s)
                                ch = True
                        if i.ty == 'ptr':
                            new |= retpts.get(t, set())
                if new and not new <= pts.get(i, set()):
                    pts.setdefault(i, set()).update(new)
                    ch = True
    WR = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'sprintf': [0], 'snprintf': [0], 'vsnprintf': [0],
          'fread': [0], 'read': [1], 'qsort': [0], 'strcat': [0], 'free': [0], 'realloc': [0],
          'JudyLIns': [0], 'JudyLDel': [0], 'JudyHSIns': [0], 'JudyLFreeArray': [0], 'JudyHSFreeArray': [0], 'Judy1Set': [0], 'time': [0]}
    writes = {}
    for f in funcs:
        for i in f.insts():
            tgt = []
            if i.op == 'store':
                tgt = [i.ops[1]]
            elif i.op in ('atomicrmw', 'cmpxchg'):
                tgt = [i.ops[0]]
            elif i.op == 'call':
                nme = strip_dot(i.cname())
                if nme and nme.startswith('llvm.mem'):
                    tgt = [i.ops[0]]
                elif nme in WR:
                    tgt = [i.ops[k] for k in WR[nme] if k < len(i.ops)]
                elif nme in ('pthread_mutex_lock', 'pthread_once'):
                    tgt = [i.ops[0]]
                elif i.callee.kind == 'func' and i.callee.decl and nme and not (nme.startswith(READS) and nme != 'PyOS_snprintf'):
                    tgt = [o for o in i.ops if any(g in ownable for g in get(o))]
                if nme in NONREENTRANT:
                    rep.bad('libc:%s:%s' % (f.name, nme), '%s%s in %s: %s uses process-global state' % (tag, i.loc(), f.name, nme))
            for o in tgt:
                rep.count('memory writes examined')
                for g in get(o):
                    if f.name in init and f.file == 'pointless_ext.c':
                        rep.count('writes during module initialisation')
                        continue
                    writes.setdefault(g, []).append(i)
    for g in sorted(mut, key=lambda g: g.name):
        ws = writes.get(g, [])
        if ws:
            rep.bad('global:%s' % g.name, '%s%s in %s: writes the %s variable %s shared by all objects and threads' % (
                tag, ws[0].loc(), ws[0].fn.name, 'static' if g.linkage in (8, 9) else 'global', g.name))
        else:
            rep.ok()
        # a mutable global whose type is plain data and that is never written is a table
    # address of a mutable plain-data global stored into memory (a second name for shared state)
    for f in funcs:
        if f.name in init and f.file == 'pointless_ext.c':
            continue
        for i in f.insts():
            if i.op == 'store':
                for g in get(i.ops[0]):
                    if g in ownable and i.ops[0].ty == 'ptr':
                        rep.bad('escape:%s' % g.name, '%s%s in %s: address of mutable static %s is stored' % (tag, i.loc(), f.name, g.name))
    # static caches of Python objects or thread-local variables are mutable globals too (covered above)


def pyowned(g):
    t = g.valty
    return any(k in t for k in ('_typeobject', 'PyMethodDef', 'PyGetSetDef', 'PyMemberDef', 'PySequenceMethods', 'PyMappingMethods',
                                'PyNumberMethods', 'PyModuleDef', 'PyBufferProcs'))
