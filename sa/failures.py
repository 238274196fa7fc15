"""Failure propagation: bottom-up, path-sensitive.

Each fallible operation (allocation, system call, CPython call, function that reports an error) is
forked into its success and its failure outcome; the failing outcome is followed to every return.
Typestate: (failed, exc, err)
   failed  name of the first failing operation not yet dealt with ('' = none)
   exc     Python exception: 0 none, 1 set, 2 unknown
   err     1 when the function's own error out-parameter was given a message
Summaries (callees first) say how a function reports failure: the constant it returns, whether an
exception / an error message accompanies it, and which flag fields it latches.
"""
import engine
from engine import Engine, Client, K0, K1
from common import strip_dot, sccs
from errs import Channels, is_cstring_addr
from modref import ModRef, innermost

ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'aligned_alloc', 'reallocarray'}
# system calls: failing result ('nz' nonzero, or a constant)
SYS = {'fopen': 0, 'fdopen': 0, 'fstat': -1, 'fstat64': -1, 'mmap': -1, 'mkstemp': -1, 'fflush': 'nz', 'fsync': 'nz', 'fchmod': 'nz',
       'rename': 'nz', 'ftell': -1, 'fwrite': 'short'}
# insertion into a Judy array: a pointer to the value slot, or PJERR when out of memory
JUDY = {'JudyLIns', 'JudyHSIns', 'JudySLIns'}
SYS.update({n: -1 for n in JUDY})
# CPython functions returning int/ssize: (failing constant, exception)
PYINT = {'PyArg_Parse': 0, 'PyArg_ParseTuple': 0, 'PyArg_ParseTupleAndKeywords': 0, 'PyArg_UnpackTuple': 0, 'PyBuffer_FillInfo': -1,
         'PyObject_GetBuffer': -1, 'PyObject_RichCompareBool': -1, 'PyObject_IsTrue': -1, 'PySlice_Unpack': -1, 'PyType_Ready': -1,
         'PyModule_AddObject': -1, 'PyCapsule_SetContext': -1, 'PyList_Append': -1, 'PyList_SetItem': -1, 'PyDict_SetItem': -1,
         'PySet_Add': -1, 'PyObject_SetAttr': -1, '_PyUnicode_Ready': -1, 'PyUnicode_READY': -1, 'PyObject_Size': -1, 'PySequence_Size': -1,
         'PyObject_Length': -1, 'PySequence_Contains': -1, 'PyLong_AsLongLong': -1, 'PyLong_AsLong': -1, 'PyLong_AsUnsignedLongLong': -1,
         'PyLong_AsUnsignedLong': -1, 'PyLong_AsSsize_t': -1, 'PyLong_AsSize_t': -1, 'PyNumber_AsSsize_t': -1, 'PyObject_Hash': -1, 'PyList_Sort': -1,
         'PyUnicode_Compare': -1, 'PyErr_WarnEx': -1, 'Py_EnterRecursiveCall': 'nz', 'PyLong_AsInt': -1, '_PyLong_AsInt': -1,
         'PyByteArray_Resize': -1, 'PyMapping_Size': -1, 'PyDict_DelItem': -1, 'PySequence_SetItem': -1}
# of these, the ones whose success is exactly 0
PYZERO = {'PyModule_AddObject', 'PyType_Ready', 'PyCapsule_SetContext', 'PyObject_GetBuffer', 'PyBuffer_FillInfo', 'PyList_Append', 'PyList_SetItem',
          'PyDict_SetItem', 'PyDict_DelItem', 'PySet_Add', 'PyObject_SetAttr', 'PySlice_Unpack', 'PyList_Sort', 'PyByteArray_Resize', 'PySequence_SetItem'}
PYBORROW_NOEXC = {'PyDict_GetItem', 'PyDict_GetItemString', 'PyErr_Occurred', 'PyWeakref_GET_OBJECT'}
# pointer-returning CPython functions that cannot fail
PYSAFE = {'Py_TYPE', 'PyUnicode_DATA', 'PyByteArray_AS_STRING', 'PyBytes_AS_STRING', 'PyTuple_GET_ITEM', 'PyList_GET_ITEM', 'PyEval_SaveThread',
          'PyUnicode_1BYTE_DATA', 'PyUnicode_2BYTE_DATA', 'PyUnicode_4BYTE_DATA', '_PyUnicode_COMPACT_DATA', '_PyUnicode_NONCOMPACT_DATA', 'PyThreadState_Get',
          'Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef', 'PyObject_GetIterUnsafe', 'PyBool_FromLong', 'PyByteArray_AsString'}
SETEXC = {'PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_SetFromErrno', '_PyErr_BadInternalCall',
          'PyErr_BadInternalCall', 'PyErr_BadArgument', 'PyErr_SetFromErrnoWithFilename', 'PyErr_FormatV', 'PyErr_Restore', 'PyErr_SetRaisedException'}
CLEAREXC = {'PyErr_Clear', 'PyErr_Print', 'PyErr_PrintEx', 'PyErr_WriteUnraisable'}
NOEFFECT_PREFIX = ('PyErr_',)


class Summary:
    __slots__ = ('kind', 'fallible', 'fail', 'exc', 'chans', 'msg', 'latch', 'why', 'okexc', 'nret', 'steps', 'trunc', 'failset', 'cbonly')

    def __init__(self):
        self.kind, self.fallible, self.fail, self.exc, self.chans, self.msg = None, False, None, set(), (), set()
        self.latch = set()
        self.why = set()
        self.nret = self.steps = 0
        self.trunc = False
        self.failset = None
        self.cbonly = False

    def sig(self):
        return (self.kind, self.fallible, self.fail, frozenset(self.exc), frozenset(self.msg), frozenset(self.latch), self.cbonly,
                frozenset(self.failset or ()))

    def again(self):
        s = Summary()
        s.kind, s.chans, s.fail = self.kind, self.chans, self.fail
        return s


def consts_of(f):
    """constants a function can return (through phis and selects), and whether anything else"""
    out, other = set(), []
    w = engine.width(f.retty)
    for r in f.rets():
        if not r.ops:
            continue
        work, seen = [r.ops[0]], set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            if v.kind == 'int':
                out.add(engine.sx(v.n, w))
            elif v.kind == 'undef':
                pass
            elif v.kind == 'inst' and v.op == 'phi':
                work.extend(v.ops)
            elif v.kind == 'inst' and v.op == 'select':
                work.extend(v.ops[1:])
            elif v.kind == 'inst' and v.op in ('zext', 'sext') and v.ops[0].ty == 'i1':
                out.update((0, 1))
            elif v.kind == 'inst' and v.op in ('zext', 'sext', 'trunc'):
                work.append(v.ops[0])
            elif v.kind == 'inst' and v.op == 'icmp':
                out.update((0, 1))
            else:
                other.append(v)
    return out, other


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.ch = Channels(prog)
        self.modref = ModRef(prog)
        self.sum = {}
        self.roles = prog.entry_points()
        self.latchflds = self.find_latches()
        self.findings = []      # (key, msg)
        self.stats = {'functions': 0, 'abstract states': 0, 'return paths': 0, 'fallible operations': 0, 'fallible functions': 0, 'truncated': 0}

    client = None   # FailClient
    only = None     # restrict the analysis to the call closure of these functions

    def find_latches(self):
        """int fields only ever stored constants, at least one of them nonzero, by more than one function
        or reset to zero: flag fields such as an is_error marker"""
        mod = self.prog.mod
        vals, bad = {}, set()
        for f in self.prog.funcs:
            for i in f.insts():
                if i.op == 'store' and i.ops[0].ty == 'i32':
                    a = i.ops[1]
                    if a.kind == 'inst' and a.op == 'gep':
                        r = innermost(mod, a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
                        if r:
                            if i.ops[0].kind == 'int':
                                vals.setdefault(r, set()).add(i.ops[0].n)
                            else:
                                bad.add(r)
        return {r for r, v in vals.items() if r not in bad and v == {0, 1} and 'error' in self.prog.struct_field(*r).lower()}

    def run(self):
        g = self.prog.callgraph()
        names = {f.name for f in self.prog.funcs}
        if self.only is not None:
            # these functions and whatever they call
            keep, work = set(), list(self.only)
            while work:
                n = work.pop()
                if n not in keep and n in names:
                    keep.add(n)
                    work.extend(g.get(n, ()))
            names = keep
        g = {n: {c for c in cs if c in names} for n, cs in g.items() if n in names}
        for comp in sccs(g):
            fs = [self.prog.mod.funcs[n] for n in sorted(comp)]
            rec = len(comp) > 1 or comp[0] in g[comp[0]]
            if rec:
                for f in fs:
                    self.sum[f.name] = self.guess(f)
            for _ in range(4 if rec else 1):
                before = [self.sum[f.name].sig() for f in fs] if rec else None
                out = [self.analyse(f) for f in fs]
                if rec and before == [self.sum[f.name].sig() for f in fs]:
                    break
            for f, (cl, eng, s, pending) in zip(fs, out):
                self.stats['functions'] += 1
                self.stats['abstract states'] += eng.steps
                self.stats['return paths'] += s.nret
                self.stats['fallible operations'] += len(cl.ops)
                self.stats['fallible functions'] += s.fallible
                self.stats['truncated'] += eng.truncated
                for a in pending:
                    self.on_return(*a)
        return self

    def kind(self, f):
        if f.retty == 'void':
            return 'void'
        if f.retty == 'ptr':
            return 'ptr'
        cs, other = consts_of(f)
        if self.roles.get(f) and f.retty in ('i32', 'i64'):
            return 'neg1'       # integer slots called by CPython report failure as -1
        if self.ch.status(f) == 'bool':
            return 'bool'
        if -1 in cs and 1 in cs and f.retty == 'i32' and not self.roles.get(f):
            return 'value'      # three-way comparison
        if -1 in cs and f.retty in ('i32', 'i64'):
            return 'neg1'
        # a status passed through from callees
        kinds = set()
        for v in other:
            if v.kind == 'inst' and v.op == 'call':
                for t in self.prog.targets(v):
                    s = self.sum.get(t.name)
                    kinds.add(s.kind if s else PYINT.get(strip_dot(t.name), 'value'))
            else:
                kinds.add('value')
        if kinds == {'bool'} and cs <= {0, 1}:
            return 'bool'
        if kinds <= {'neg1', -1} and kinds:
            return 'neg1'
        return 'value'

    FAILCONST = {'bool': 0, 'ptr': 0, 'neg1': -1}

    def guess(self, f):
        s = Summary()
        s.kind = self.kind(f)
        s.chans = () if self.roles.get(f) else self.ch.of(f)
        s.fail = self.FAILCONST.get(s.kind)
        s.fallible = bool(s.chans) or s.fail is not None
        # optimistic start for recursion: the flags the function itself raises
        for i in f.insts():
            if i.op == 'store' and i.ops[0].kind == 'int' and i.ops[0].n == 1 and i.ops[1].kind == 'inst' and i.ops[1].op == 'gep':
                a = i.ops[1]
                cs = [o.n if o.kind == 'int' else None for o in a.ops[1:]]
                r = innermost(self.prog.mod, a.srcty, cs[1:])
                if r in self.latchflds and a.ops[0].kind == 'arg' and len(cs) == 2 and cs[0] == 0:
                    s.latch.add((a.ops[0].idx, self.prog.mod.field_off(a.srcty, cs[1]), r))
        s.exc = {1} if f.file.startswith('python/') and not s.chans else {0}
        s.msg = {1} if s.chans else set()
        return s

    def analyse(self, f):
        s = Summary()
        s.kind = self.kind(f)
        s.chans = () if self.roles.get(f) else self.ch.of(f)
        s.fail = self.FAILCONST.get(s.kind)
        cl, eng, s = self.explore(f, s)
        if s.kind == 'neg1':
            # which constant do failing returns carry?
            fc = cl.failconst
            if len(fc) == 1 and None not in fc and fc != {-1}:
                s.fail = fc.pop()
                cl, eng, s = self.explore(f, s)
        s.steps, s.trunc = eng.steps, eng.truncated
        s.latch = cl.latch_ok or set()
        s.cbonly = bool(cl.causes) and all(self.cb_cause(f, i) for i in cl.causes)
        self.sum[f.name] = s
        return cl, eng, s, self.pending

    def explore(self, f, s):
        """path-sensitively; with coarser joins when that does not settle"""
        for k in (12, 3, 1):
            x = s.again()
            self.pending = []
            cl = self.client(self, f, x)
            eng = Engine(self.prog.mod, f, cl, modref=self.modref, kmax=k, maxsteps=20000 if k > 1 else 200000)
            eng.run()
            if not eng.truncated:
                break
        self.explored(f, cl, eng, x)
        return cl, eng, x

    def explored(self, f, cl, eng, s):
        pass

    def cb_cause(self, f, i):
        """failing call i of f fails only through a callback parameter"""
        if i.op != 'call':
            return False
        if i.callee.kind == 'arg':
            return True
        if i.callee.kind == 'func':
            if i.callee is f:
                return True
            x = self.sum.get(i.callee.name)
            return bool(x and x.cbonly and all(o.kind in ('arg', 'func') for o in i.ops if o.ty == 'ptr'))
        return False

    def chanfield(self, a):
        """name of the struct field addressed, '' if none"""
        if a.kind == 'inst' and a.op == 'load':
            a = a.ops[0]
        if a.kind == 'inst' and a.op == 'gep':
            r = innermost(self.prog.mod, a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
            if r:
                return self.prog.struct_field(*r)
        return ''

    SLOTS = {'tp_iter': 'PyObject_GetIter', 'tp_iternext': 'PyIter_Next', 'tp_repr': 'PyObject_Repr', 'tp_str': 'PyObject_Str', 'tp_hash': 'PyObject_Hash'}

    def slot(self, inst):
        """name of the generic CPython operation behind a call through a slot of one of its own type objects"""
        c = inst.callee
        if c.kind == 'inst' and c.op == 'load':
            a = c.ops[0]
            if a.kind in ('inst', 'cexpr') and a.op == 'gep' and a.ops[0].kind == 'global' and a.ops[0].init is None and \
                    a.ops[0].name.startswith('Py') and a.srcty == '%struct._typeobject':
                ix = [o.n for o in a.ops[1:] if o.kind == 'int']
                if len(ix) == 2:
                    return self.SLOTS.get(self.prog.struct_field(a.srcty, ix[1]), '?')
        return None

    def callees(self, inst, ts):
        if inst.callee.kind == 'inst' and self.slot(inst):
            return []
        return [t for t in ts if not t.decl and self.prog.is_project(t)]

    def extname(self, inst, n, ts):
        if n is None:
            n = self.slot(inst)
            if n is None and ts:
                n = strip_dot(ts[0].name)
        return None if n == '?' else n

    def on_return(self, cl, eng, st, inst, val, failed, exc, err, latch, can_ok, can_fail):
        pass

    def report(self, key, msg):
        self.findings.append((key, msg))


MSG = ('g', '<message>')


class FailClient(Client):
    def __init__(self, an, f, s):
        self.an, self.f, self.s = an, f, s
        self.ops = set()
        self.latch_ok = None     # latch cells set on every failing return
        self.role = an.roles.get(f, [])
        self.isiter = any(r.endswith('.tp_iternext') for r in self.role)
        self.own = set()
        self.ind = {}
        self.causes = set()      # instructions a reported failure starts at
        self.failconst = set()

    # ---- error channels
    def start(self, eng, st):
        st.ps = ('', 0, 0)
        if any(r.endswith('.tp_richcompare') for r in self.role):
            # CPython passes one of the six comparison operators
            eng.refine(st, ('icmp', 'ule', ('a', 2), ('k', 5), 32), True)
        for c in self.s.chans:
            t = self.cell(eng, st, [('a', a.idx) for a in self.f.args], c)
            if t is not None:
                self.own.add(t)
                if c[1] == 'ind':
                    self.ind[eng.off(('a', c[0]), c[2])] = t
                st.mem[(t, 'ptr')] = K0

    def cell(self, eng, st, args, chan):
        """address term of the message cell of a channel"""
        k, kind, off = chan
        if k >= len(args):
            return None
        a = args[k]
        if a == K0:
            return None
        if kind == 'direct':
            return a
        a = eng.off(a, off)
        if kind == 'field':
            return a
        v = st.mem.get((a, 'ptr'))
        if v is None:
            v = ('old', repr(a))
            st.mem[(a, 'ptr')] = v
        return None if v == K0 else v

    def load(self, eng, st, inst, addr):
        # the pointer to the caller's error cell is never changed
        if addr in self.ind:
            st.mem[(addr, 'ptr')] = self.ind[addr]

    def store(self, eng, st, inst, addr, val):
        failed, exc, err = st.ps
        if addr in self.own and inst.ops[0].ty == 'ptr':
            if val == K0:
                st.ps = ('', exc, 0)
            else:
                st.ps = (failed or self.site('error message', inst), exc, 1)
            if is_cstring_addr(inst.ops[0]):
                return MSG
        elif is_cstring_addr(inst.ops[0]) and inst.ops[1].kind == 'inst' and inst.ops[1].op in ('gep', 'load') and 'error' in self.an.chanfield(inst.ops[1]):
            st.ps = (failed or self.site('error message', inst), exc, err)
            return MSG
        if inst.ops[0].kind == 'int' and inst.ops[0].n != 0:
            r = self.latch(inst)
            if r:
                failed, exc, err = st.ps
                st.ps = (failed or self.site('error flag', inst), exc, err)

    def latch(self, inst):
        a = inst.ops[1]
        if a.kind == 'inst' and a.op == 'gep':
            r = innermost(self.an.prog.mod, a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
            if r in self.an.latchflds:
                return r
        return None

    def site(self, name, inst):
        self.causes.add(inst)
        return '%s@%d' % (name, inst.idx)

    # ---- outcomes
    def fork(self, eng, st, inst, okret, failret, name, exc=None, latch=(), cells=()):
        """success state first; failing state has ps.failed"""
        self.ops.add(inst)
        failed, e, err = st.ps
        a, b = st.copy(), st
        out = []
        # success
        t = None
        if inst.ty != 'void':
            t = eng.fresh(a, inst)
            w = engine.width(inst.ty)
            feasible = True
            if okret == 'nz':
                feasible = eng.refine(a, ('icmp', 'ne', t, K0, w), True)
            elif okret == 'ge0':
                feasible = eng.refine(a, ('icmp', 'sge', t, K0, w), True)
            elif okret == 'ne-1':
                feasible = eng.refine(a, ('icmp', 'ne', t, ('k', -1), w), True)
            elif isinstance(okret, tuple) and okret[0] == 'ne':
                feasible = eng.refine(a, ('icmp', 'ne', t, ('k', okret[1]), w), True)
            elif isinstance(okret, tuple):
                t = okret
            if feasible:
                out.append((a, t))
        else:
            out.append((a, None))
        if failed and out:
            if name in SYS and failed.split('@')[0] == name and name not in JUDY:
                out[0][0].ps = ('', e, err)     # the retried system call succeeded
            else:
                return out      # one failure at a time
        # failure
        if inst.ty != 'void':
            w = engine.width(inst.ty)
            if failret == 'nz':
                t = eng.fresh(b, inst)
                eng.refine(b, ('icmp', 'ne', t, K0, w), True)
            elif failret is None:
                t = eng.fresh(b, inst)
            elif isinstance(failret, tuple):
                t = failret
            else:
                t = ('k', failret)
        else:
            t = None
        ne = e
        if exc is not None:
            ne = exc
        nerr = err
        for c in cells:
            b.mem[(c, 'ptr')] = MSG
            if c in self.own:
                nerr = 1
        b.ps = (failed or self.site(name, inst), ne, nerr)
        for addr in latch:
            b.mem[(addr, 'i32')] = K1
        out.append((b, t))
        return out

    def call(self, eng, st, inst, args):
        an = self.an
        n = strip_dot(inst.cname())
        ts = an.prog.targets(inst)
        failed, exc, err = st.ps
        proj = an.callees(inst, ts)
        if proj:
            return self.project_call(eng, st, inst, args, proj)
        if not proj:
            n = an.extname(inst, n, ts)
        if n is None:
            eng.default_call(st, inst, args)
            return [(st, None)]
        if n in ('exit', 'abort', '_exit', '__assert_fail', '_Py_FatalErrorFunc'):
            return []
        if n in ALLOC:
            return self.fork(eng, st, inst, 'nz', 0, n)
        if n in SYS:
            eng.default_call(st, inst, args)
            r = SYS[n]
            if n == 'fwrite':
                if self.stdstream(inst):
                    return [(st, None)]
                t = ('i', inst.idx)
                a, b = st.copy(), st
                self.ops.add(inst)
                if failed:
                    return [(a, args[2])]
                eng.refine(b, ('icmp', 'ult', t, args[2], 64), True)
                b.ps = (failed or self.site(n, inst), exc, err)
                return [(a, args[2]), (b, t)]
            if r == 'nz':
                return self.fork(eng, st, inst, K0, 'nz', n)
            if r == -1 and n in JUDY:
                out = self.fork(eng, st, inst, 'ne-1', -1, n)
                if out[0][1] is not None and out[0][1][0] != 'k':
                    eng.refine(out[0][0], ('icmp', 'ne', out[0][1], K0, 64), True)
                return out
            if r == -1:
                return self.fork(eng, st, inst, K0 if n.startswith('fstat') else 'ne-1', -1, n)
            return self.fork(eng, st, inst, 'nz', r, n)
        if n in SETEXC:
            st.ps = (failed or self.site('exception raised', inst), 1, err)
            if inst.ty == 'ptr':
                return [(st, K0)]
            return [(st, None)]
        if n in CLEAREXC:
            st.ps = ('', 0, err)
            return [(st, None)]
        if n == 'PyErr_Occurred':
            if exc == 0:
                return [(st, K0)]
            if exc == 1:
                t = eng.fresh(st, inst)
                eng.refine(st, ('icmp', 'ne', t, K0, 64), True)
                return [(st, t)]
            a = st.copy()
            a.ps = ('', 0, err)
            st.ps = (failed or self.site('exception', inst), 1, err)
            t = eng.fresh(st, inst)
            eng.refine(st, ('icmp', 'ne', t, K0, 64), True)
            return [(a, K0), (st, t)]
        if n == 'PyIter_Next':
            a = st.copy()
            r = self.fork(eng, st, inst, 'nz', 0, n, exc=1)
            return r + [(a, K0)]
        if n == 'PyErr_ExceptionMatches':
            return None
        if n in PYINT:
            eng.default_call(st, inst, args)
            r = PYINT[n]
            if r == 0:
                return self.fork(eng, st, inst, 'nz', 0, n, exc=1)
            if r == 'nz':
                return self.fork(eng, st, inst, K0, 'nz', n, exc=1)
            if n.startswith(('PyLong_As', 'PyNumber_As')):
                return self.fork(eng, st, inst, None, -1, n, exc=1)
            return self.fork(eng, st, inst, K0 if n in PYZERO else 'ge0', -1, n, exc=1)
        if inst.ty == 'ptr' and n.startswith(('Py', '_Py')):
            if n in PYSAFE:
                if n == 'PyBool_FromLong':
                    t = eng.fresh(st, inst)
                    eng.refine(st, ('icmp', 'ne', t, K0, 64), True)
                    return [(st, t)]
                return None
            if n in PYBORROW_NOEXC:
                return None
            eng.default_call(st, inst, args)
            return self.fork(eng, st, inst, 'nz', 0, n, exc=1)
        return None

    def safe_callbacks(self, inst):
        cbs = [o for o in inst.ops if o.kind == 'func']
        if not cbs:
            return False
        return all(not (self.an.sum.get(o.name) or self.an.guess(o)).fallible for o in cbs if not o.decl)

    def stdstream(self, inst):
        o = inst.ops[3]
        return o.kind == 'inst' and o.op == 'load' and o.ops[0].kind == 'global' and o.ops[0].name in ('stderr', 'stdout')

    def project_call(self, eng, st, inst, args, proj):
        an = self.an
        ss = [an.sum.get(t.name) or an.guess(t) for t in proj]
        cells = set()
        for x in ss:
            for c in x.chans:
                t = self.cell(eng, st, args, c)
                if t is not None:
                    cells.add(t)
        # on success, flags and message cells are unchanged
        keep = {}
        for (a, ty), v in st.mem.items():
            if ty == 'i32':
                inf = eng.addrinfo.get(a)
                if inf and innermost(an.prog.mod, inf[0], inf[1]) in an.latchflds:
                    keep[(a, ty)] = v
            elif ty == 'ptr' and (a in self.own or a in cells or v in self.own or v in cells):
                keep[(a, ty)] = v
        for c in cells:
            if (c, 'ptr') not in keep:
                keep[(c, 'ptr')] = K0
        eng.havoc(st, args, inst.callee, inst)
        st.mem.update(keep)
        fall = []
        for x, t in zip(ss, proj):
            if not x.fallible:
                continue
            if x.cbonly and self.safe_callbacks(inst):
                continue        # fails only when a callback does, and these callbacks cannot
            if any(k < len(args) and args[k] == K0 and kind_ == 'direct' for k, kind_, off in x.chans):
                continue        # caller states that no error is possible (values without containers)
            fall.append(x)
        if inst.ty != 'void':
            st.env[inst] = eng.fresh(st, inst)
        if not fall:
            return [(st, st.env.get(inst))]
        s = fall[0]
        kinds = {x.kind for x in ss}
        latch = []
        for x in fall:
            for k, off, r in x.latch:
                if k < len(args):
                    latch.append((eng.off(args[k], off), r))
        for t, r in latch:
            eng.addrinfo[t] = (r[0], (r[1],))
        lat = [t for t, r in latch]
        name = strip_dot(proj[0].name) if len(proj) == 1 else 'call through pointer'
        msg = set()
        excs = set()
        for x in fall:
            excs |= x.exc
            msg |= x.msg
        out = []
        base = st
        ccs = sorted(cells, key=repr)
        for n_, e in enumerate(sorted(excs) or [0]):
            stx = base.copy()
            mc = ccs if 1 in msg else ()
            fails = {x.fail for x in fall}
            if len(kinds) == 1 and len(fails) == 1 and s.kind in ('bool', 'ptr', 'neg1'):
                okr = {'bool': 'nz', 'ptr': 'nz', 'neg1': ('ne', s.fail)}[s.kind]
                # a function may also return its failing constant as an ordinary answer
                if any(x.failset and 'ok' in x.failset for x in ss):
                    okr = None
                r = self.fork(eng, stx, inst, okr, s.fail, name, exc=e if e else None, latch=lat, cells=mc)
            else:
                r = self.fork(eng, stx, inst, None, None, name, exc=e if e else None, latch=lat, cells=mc)
            out.extend(r if n_ == 0 else r[-1:])
        return out

    def feasible(self, eng, st, cond, truth):
        # an index computed from parameters and loop counters is not taken for the sentinel -1 when nothing failed
        if cond[0] == 'icmp' and cond[4] == 32 and cond[3] == ('k', -1) and (cond[1] == 'eq') == truth and cond[1] in ('eq', 'ne') and not st.ps[0]:
            return cond[2][0] not in ('top', 'add', 'a', 'phi')
        return True

    # ---- returns
    def ret(self, eng, st, inst, val):
        an, s, f = self.an, self.s, self.f
        s.nret += 1
        failed, exc, err = st.ps
        failed = failed.split('@')[0]
        kind = s.kind
        w = engine.width(f.retty)
        can_ok = can_fail = True
        if kind in ('bool', 'ptr', 'neg1') and val is not None:
            fc = ('k', s.fail)
            c = eng.const_of(st, val, w)
            if c is not None:
                can_fail = engine.sx(c, w) == engine.sx(s.fail, w)
                can_ok = not can_fail
            else:
                d = eng.decide(st, ('icmp', 'eq', val, fc, w))
                if d is True:
                    can_ok = False
                elif d is False:
                    can_fail = False
        if failed:
            self.failconst.add(eng.const_of(st, val, w) if val is not None else None)
            lt = set()
            for (a, ty), v in st.mem.items():
                if ty == 'i32' and v == K1:
                    b, off = (a[1], a[2]) if a[0] == 'off' else (a, 0)
                    if b[0] == 'a':
                        inf = eng.addrinfo.get(a)
                        r = innermost(an.prog.mod, inf[0], inf[1]) if inf else None
                        if r in an.latchflds:
                            lt.add((b[1], off, r))
            reported = (kind in ('bool', 'ptr', 'neg1') and can_fail) or err or lt or exc == 1
            if reported:
                s.fallible = True
                s.exc.add(exc)
                s.msg.add(err)
                s.why.add(failed)
                self.latch_ok = lt if self.latch_ok is None else self.latch_ok & lt
            an.pending.append((self, eng, st, inst, val, failed, exc, err, lt, can_ok, can_fail))
        else:
            # an undetermined index or pointer is not taken for the sentinel that reports failure
            if kind in ('bool', 'ptr', 'neg1') and can_fail and (kind == 'bool' or not can_ok):
                s.failset = (s.failset or set()) | {'ok'}
            an.pending.append((self, eng, st, inst, val, failed, exc, err, (), can_ok, can_fail))


Analysis.client = FailClient
