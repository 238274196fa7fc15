"""A09: interpreter-lock discipline."""
from common import Program, AnalysisBroken, strip_dot
from taint import Provenance

ACQ = {'PyEval_RestoreThread'}
REL = {'PyEval_SaveThread'}
NOGIL_OK = {'PyEval_RestoreThread', 'PyEval_SaveThread', 'PyMem_RawMalloc', 'PyMem_RawFree', 'PyMem_RawRealloc', 'PyMem_RawCalloc',
            'PyGILState_Ensure', 'PyGILState_Release', 'PyGILState_Check', '_Py_FatalErrorFunc', 'Py_AddPendingCall'}
MUTABLE = {'PyByteArray_AS_STRING', 'PyByteArray_AsString'}
PINNED = {'PyObject_GetBuffer'}


def is_py(n, prog):
    """a CPython API function (or an inline helper of Python.h)"""
    if n is None:
        return False
    f = prog.mod.funcs.get(n)
    s = strip_dot(n)
    if f is not None and not f.decl and prog.is_project(f):
        return False
    return s.startswith(('Py', '_Py')) and s not in NOGIL_OK


def run(rep, tier):
    rep.rule = ('forward dataflow of the lock state over every function (released/held per program point), with the transitive '
                'closure of CPython API use over the call graph: no API call and no interpreter-owned mutable buffer while released, '
                'each release is undone exactly once on every path with the same thread state, and functions that map, unmap or '
                'validate files are entered from Python methods only with the lock released when they work on files')
    for nd in ([True] if tier == 'quick' else [True, False]):
        prog = Program(ndebug=nd, inline=True)
        analyse(rep, prog, '' if nd else '[asserts] ')
    rep.floor('lock releases', 2)
    rep.floor('calls made while the lock is released', 4)
    rep.floor('functions that reach the CPython API', 100)
    rep.assumptions = ['functions outside this repository and CPython do not call back into Python']


def analyse(rep, prog, tag):
    cg = prog.callgraph()
    api = {}
    for f in prog.mod.defined():
        if prog.is_project(f):
            for i in f.insts():
                if i.op == 'call' and i.callee.kind == 'func' and is_py(i.callee.name, prog):
                    api.setdefault(f.name, (i, None))
                    break
    ch = True
    while ch:
        ch = False
        for f in prog.funcs:
            if f.name not in api:
                for c in sorted(cg[f.name]):
                    if c in api:
                        api[f.name] = (None, c)
                        ch = True
                        break
    rep.count('functions', len(prog.funcs))
    rep.count('functions that reach the CPython API', len(api))

    pv = Provenance(prog)
    dyn = [s for s in prog.mod.structs if s.startswith('%struct.pointless_dynarray')]

    def seed(i):
        if i.op != 'call':
            return False
        n = strip_dot(i.cname())
        return n in MUTABLE
    # interpreter-owned mutable storage: bytearray buffers, arrays owned by vector/bitvector objects
    objs = {'%struct.' + t for t in ('PyPointlessPrimVector', 'PyPointlessBitvector')}
    for f in prog.funcs:
        if not f.file.startswith('python/'):
            continue
        for i in f.insts():
            if i.op == 'call' and i.ty == 'ptr':
                for o in i.ops:
                    if o.kind == 'inst' and o.op == 'gep' and o.srcty in objs and i.callee.kind == 'func' and not is_py(i.callee.name, prog):
                        pv.mark(i, 'storage of a mutable object: %s' % i.cname())
            elif i.op == 'load' and i.ty == 'ptr' and i.ops[0].kind == 'inst' and i.ops[0].op == 'gep' and i.ops[0].srcty in objs:
                pv.mark(i, 'storage of a mutable object')
    pv.solve(seed)

    blockers = reach_names(prog, cg, {'mmap', 'mmap64', 'munmap'})
    nrel = 0
    for f in prog.funcs:
        rel = [i for i in f.insts() if i.op == 'call' and i.cname() in REL]
        acq = [i for i in f.insts() if i.op == 'call' and i.cname() in ACQ]
        direct_block = f.file.startswith('python/') and any(
            i.op == 'call' and any(t.name in blockers and not t.file.startswith('python/') for t in prog.targets(i)) for i in f.insts())
        if not rel and not acq and not direct_block:
            continue
        nrel += len(rel)
        rep.count('lock releases', len(rel))
        states = {f.blocks[0]: {None}}
        work = [f.blocks[0]]
        while work:
            b = work.pop()
            cur = set(states[b])
            for i in b.insts:
                cur = step(rep, prog, pv, api, blockers, tag, f, i, cur, False)
            for s in b.succs():
                if not cur <= states.get(s, set()):
                    states.setdefault(s, set()).update(cur)
                    work.append(s)
        for b in f.blocks:
            if b in states:
                cur = set(states[b])
                for i in b.insts:
                    cur = step(rep, prog, pv, api, blockers, tag, f, i, cur, True)
    # functions that reach the lock functions are not called while released through helpers
    return nrel


def step(rep, prog, pv, api, blockers, tag, f, i, cur, report):
    if i.op == 'ret':
        if report and cur:
            rep.check(cur == {None}, 'unbalanced:%s' % f.name, '%s%s in %s: returns with the interpreter lock released' % (tag, i.loc(), f.name))
        return cur
    if i.op != 'call':
        return cur
    n = i.cname()
    where = '%s%s in %s' % (tag, i.loc(), f.name)
    if n in REL:
        if report:
            rep.check(cur <= {None}, 'double-release:%s' % f.name, '%s: lock released twice' % where)
        return {i}
    if n in ACQ:
        if report:
            ok = None not in cur
            src = i.ops[0]
            srcs = set(src.ops) if src.kind == 'inst' and src.op == 'phi' else {src}
            ok = ok and cur <= srcs | {src}
            rep.check(ok, 'bad-acquire:%s' % f.name, '%s: lock re-acquired without a matching release on every path' % where)
        return {None}
    if not report:
        return cur
    released = any(c is not None for c in cur)
    ts = prog.targets(i)
    if released:
        rep.count('calls made while the lock is released')
        for t in ts:
            bad = is_py(t.name, prog) or t.name in api
            if bad:
                chain = [t.name]
                x = t.name
                while x in api and api[x][1] and len(chain) < 8:
                    x = api[x][1]
                    chain.append(x)
                if x in api and api[x][0] is not None:
                    chain.append(api[x][0].cname())
                rep.bad('api-released:%s:%s' % (f.name, strip_dot(t.name)),
                        '%s: CPython API reached while the lock is released: %s' % (where, ' -> '.join(chain)))
            else:
                rep.ok()
        for o in i.ops:
            rep.check(o not in pv.vals, 'buffer-released:%s' % f.name,
                      '%s: %s uses memory of a mutable Python object while the lock is released (%s)' % (where, n, pv.explain(o) if o in pv.vals else ''))
    elif f.file.startswith('python/'):
        for t in ts:
            if t.name in blockers and not t.file.startswith('python/'):
                rep.count('file operations entered with the lock held')
                memonly = any(o in pv.vals for o in i.ops)
                rep.check(memonly, 'blocking-held:%s:%s' % (f.name, t.name),
                          '%s: %s maps, validates or unmaps a file while holding the interpreter lock' % (where, t.name))
    return cur


def reach_names(prog, cg, names):
    out = set()
    ch = True
    while ch:
        ch = False
        for f, cs in cg.items():
            if f not in out and (cs & names or cs & out):
                out.add(f)
                ch = True
    return out
