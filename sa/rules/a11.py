"""A11: storage that is exported or borrowed does not move.

Three analyses over the linked program:
  pin      path-sensitive: a call (or store) that resizes the array of a primitive vector is only reached where the vector's
           export counter was found to be zero after the last call that can run user code
  borrow   forward dataflow over every function: a pointer into a growable array is not used after that array may have moved,
           and an array is not appended from a pointer into its own storage
  balance  path-sensitive: a successful getbuffer adds one export, a failed one none, a release takes one away
"""
import engine
from engine import Engine, Client
from common import Program, AnalysisBroken, strip_dot
from modref import ModRef

PV = '%struct.PyPointlessPrimVector'
CELLS = ('_data', 'n_items', 'n_alloc')
# other storage of Python objects that is replaced when the object grows: (structure, field)
SLOTS = (('%struct.PyPointlessBitvector', 'primitive_bits'),)

# C-API functions that never run Python code of the user (no attribute lookup, no special method, no deallocation of foreign objects)
QUIET = {'PyArg_UnpackTuple', 'PyBool_FromLong', 'PyBuffer_FillInfo', 'PyByteArray_AsString', 'PyByteArray_FromStringAndSize', 'PyBytes_AsString',
         'PyCapsule_New', 'PyCapsule_SetContext', 'PyDict_Next', 'PyErr_Clear', 'PyErr_NoMemory', 'PyErr_Occurred', 'PyErr_SetFromErrno',
         'PyErr_SetObject', 'PyErr_SetString', '_PyErr_BadInternalCall', 'PyFloat_FromDouble', 'PyIndex_Check', 'PyLong_FromLong',
         'PyLong_FromLongLong', 'PyLong_FromSize_t', 'PyLong_FromSsize_t', 'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong',
         'PyObject_TypeCheck', 'PySlice_AdjustIndices', 'PyType_HasFeature', 'PyType_IsSubtype', 'PyUnicode_AsLatin1String',
         'PyUnicode_FromKindAndData', 'PyUnicode_FromString', 'PyErr_ExceptionMatches', 'PyErr_GivenExceptionMatches',
         'PyErr_Fetch', 'PyList_New', 'PyTuple_New', 'PyMem_Malloc', 'PyMem_Free', 'PyMem_Realloc', 'PyObject_Malloc', 'PyObject_Free',
         '_PyObject_New', 'PyType_GenericAlloc', 'PyType_GenericNew', 'PyLong_Check', 'PyErr_BadInternalCall', 'PyErr_BadArgument',
         # only ever given an object already found to be an int / a float, whose value these read without a special method
         'PyLong_AsLongLong', 'PyLong_AsUnsignedLongLong', 'PyLong_AsLong', 'PyLong_AsUnsignedLong', 'PyFloat_AsDouble',
         'PyUnicode_READY', '_PyUnicode_Ready', 'PyUnicode_AsUTF8AndSize', 'PyUnicode_AsUTF8', 'PyUnicode_Check'}
# numeric reads that are quiet only after a type check of the same object
CHECKED = {'PyLong_AsLongLong', 'PyLong_AsUnsignedLongLong', 'PyLong_AsLong', 'PyLong_AsUnsignedLong', 'PyFloat_AsDouble'}
FRESH = {'_PyObject_New', 'PyType_GenericAlloc', 'PyType_GenericNew'}
LIBC = ('Judy', 'llvm.', 'str', 'mem', 'printf', 'snprintf', 'sprintf', 'fprintf')


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('the resizing functions of the growable array are derived from their stores; every call of one on the array of a primitive '
                'vector must be dominated, on every path and after the last call that may run user code, by the test that no buffer is '
                'exported; pointers into growable storage die at every call that may move it (summaries over the call graph, user code '
                'included); export counter balanced on every path of getbuffer/releasebuffer')
    rep.assumptions = ['CPython runs user code only inside calls of the C API, and calls listed as quiet run none',
                       'an object made by PyObject_New / tp_alloc is not visible to user code before the function returns it',
                       'reading an int or float object that was type-checked runs no user code; no other thread changes the objects (the interpreter lock is held)']
    for nd in ([True] if tier == 'quick' else [True, False]):
        prog = Program(ndebug=nd)
        A(rep, prog, '' if nd else '[asserts] ').all(nd)
    rep.floor('functions', 300)
    rep.floor('resizing calls on exportable arrays', 10)
    rep.floor('functions that take pointers into growable storage', 15)
    rep.floor('calls that may move growable storage', 40)
    rep.floor('buffer export paths', 3)


def strip(v):
    while v.kind == 'inst' and v.op == 'bitcast':
        v = v.ops[0]
    return v


class A:
    def __init__(self, rep, prog, tag):
        self.rep, self.prog, self.tag = rep, prog, tag
        self.mod = prog.mod
        self.modref = ModRef(prog)
        self._bt = {}
        self.dyn = None
        for s, fl in self.mod.structs.items():
            if fl and {prog.struct_field(s, k) for k in range(len(fl))} >= {'_data', 'n_items', 'n_alloc', 'item_size'}:
                self.dyn = s
                break
        if self.dyn is None:
            raise AnalysisBroken('the growable array structure was not found')
        self.cells = {prog.field_index(self.dyn, c): c for c in CELLS}
        self.pv = PV in self.mod.structs
        if self.pv:
            self.o_arr = self.mod.field_off(PV, prog.field_index(PV, 'array'))
            self.k_arr = prog.field_index(PV, 'array')
            self.k_exp = prog.field_index(PV, 'ob_exports')
            self.o_exp = self.mod.field_off(PV, self.k_exp)
        self.slots = {(s, prog.field_index(s, f)) for s, f in SLOTS if s in self.mod.structs}

    def all(self, nd):
        self.rep.count('functions', len(self.prog.funcs))
        self.summaries()
        self.user_code()
        if nd:
            if not self.pv:
                raise AnalysisBroken('primitive vector structure not found')
            self.pin()
            self.balance()
        self.borrow()

    # ------------------------------------------------------------------ summaries
    def field(self, v):
        """gep into a structure -> [(struct, field index), ...] outermost first, base value"""
        path = []
        v = strip(v)
        while v.kind == 'inst' and v.op in ('gep', 'bitcast'):
            if v.op == 'gep':
                ty = v.srcty
                here = []
                for o in v.ops[2:]:
                    if ty.startswith('%') and o.kind == 'int':
                        here.append((ty, o.n))
                        ty = self.mod.structs[ty][o.n]
                    elif ty.startswith('['):
                        ty = ty[1:-1].split(' x ', 1)[1]
                    else:
                        break
                path = here + path
            v = v.ops[0]
        return path, v

    def dyncell(self, addr):
        """the address is a cell (_data, n_items, n_alloc) of a growable array: (cell name, value denoting the array)"""
        a = strip(addr)
        if a.kind == 'inst' and a.op == 'gep':
            path, root = self.field(a)
            if path and path[-1][0] == self.dyn and path[-1][1] in self.cells:
                return self.cells[path[-1][1]], a, path[:-1], root
            # the first field may be addressed without a gep of its own
            if len(a.ops) > 2:
                ext = self.first(self.fieldty(a))
                if ext is not None:
                    return '_data', a, path + ext, root
        elif a.kind in ('arg', 'inst'):
            for ty in self.basetys(a):
                ext = self.first(ty)
                if ext is not None:
                    return '_data', a, ext, a
        return None

    def fieldty(self, g):
        ty = g.srcty
        for o in g.ops[2:]:
            if ty.startswith('%') and o.kind == 'int':
                ty = self.mod.structs[ty][o.n]
            elif ty.startswith('['):
                ty = ty[1:-1].split(' x ', 1)[1]
            else:
                return None
        return ty

    def first(self, ty):
        """the growable array is the first thing in an object of this type: the fields leading to it"""
        out = []
        for _ in range(4):
            if ty is None or not ty.startswith('%') or not self.mod.structs.get(ty):
                return None
            if ty == self.dyn:
                return out
            out = out + [(ty, 0)]
            ty = self.mod.structs[ty][0]
        return None

    def basetys(self, v):
        """structure types a pointer is used with in its function"""
        f = v.fn
        if f not in self._bt:
            d = self._bt[f] = {}
            for i in f.insts():
                if i.op == 'gep' and i.srcty.startswith('%'):
                    d.setdefault(strip(i.ops[0]), set()).add(i.srcty)
                elif i.op == 'alloca' and getattr(i, 'srcty', None):
                    d.setdefault(i, set()).add(i.srcty)
        return self._bt[f].get(v, ())

    def klass(self, path, root):
        """the class of arrays a growable array value belongs to"""
        for s, k in reversed(path):
            if s != self.dyn:
                return ('s', s, k)
        root = strip(root)
        if root.kind == 'arg':
            return ('arg', root.idx)
        if root.kind == 'inst' and root.op == 'alloca':
            return ('al', root)
        if root.kind == 'inst' and root.op in ('phi', 'select'):
            return ('any',)
        if root.kind == 'inst' and root.op == 'load':
            return ('any',)
        return ('any',)

    def klass_of(self, v):
        path, root = self.field(v)
        return self.klass(path, root)

    def summaries(self):
        """self.moves[f]: set of classes f may move; self.resize[f]: parameters that are arrays it resizes; self.gives[f]: parameters
        whose storage its result points into"""
        self.moves, self.resize, self.gives = {}, {}, {}
        proj = [f for f in self.mod.defined() if self.prog.is_project(f)]
        for f in proj:
            m, r = set(), set()
            for i in f.insts():
                if i.op == 'store':
                    dc = self.dyncell(i.ops[1])
                    c = None
                    if dc:
                        c = self.klass(dc[2], dc[3])
                        if c[0] == 'arg':
                            r.add(c[1])
                        if dc[0] == '_data':
                            m.add(c)
                    else:
                        path, root = self.field(i.ops[1])
                        if path and path[-1] in self.slots:
                            m.add(('s',) + path[-1])
            self.moves[f], self.resize[f] = m, r
        ch = True
        while ch:
            ch = False
            for f in proj:
                for i in f.insts():
                    if i.op != 'call':
                        continue
                    for t in self.prog.targets(i):
                        if t not in self.moves or t is f:
                            continue
                        n0 = (len(self.moves[f]), len(self.resize[f]))
                        for c in self.actual(i, self.moves[t]):
                            if c[0] != 'al':
                                self.moves[f].add(c)
                        for k in self.resize[t]:
                            if k < len(i.ops):
                                o = strip(i.ops[k])
                                if o.kind == 'arg':
                                    self.resize[f].add(o.idx)
                        if n0 != (len(self.moves[f]), len(self.resize[f])):
                            ch = True
        ch = True
        while ch:
            ch = False
            for f in proj:
                if f.retty != 'ptr':
                    continue
                g = set(self.gives.get(f, ()))
                for b in f.blocks:
                    t = b.insts[-1]
                    if t.op == 'ret' and t.ops:
                        g |= {c for c in self.provenance(t.ops[0]) if c[0] in ('arg', 's')}
                if g != self.gives.get(f, set()):
                    self.gives[f] = g
                    ch = True
        self.rep.count('functions that resize a growable array given to them', len([f for f in proj if self.resize[f]]))
        if len([f for f in proj if self.resize[f]]) < 5:
            raise AnalysisBroken('resizing functions of the growable array not found')

    def actual(self, call, classes):
        """classes of a callee in terms of its caller"""
        out = set()
        for c in classes:
            if c[0] == 'arg':
                if c[1] < len(call.ops):
                    out.add(self.klass_of(call.ops[c[1]]))
            elif c[0] != 'al':
                out.add(c)
        return out

    def origin(self, v):
        """v itself takes a pointer into growable storage: [(class, array value)]"""
        if v.kind != 'inst':
            return []
        if v.op == 'load' and v.ty == 'ptr':
            dc = self.dyncell(v.ops[0])
            if dc and dc[0] == '_data':
                return [(self.klass(dc[2], dc[3]), dc[3])]
            path, root = self.field(v.ops[0])
            if path and path[-1] in self.slots:
                return [(('s',) + path[-1], root)]
        elif v.op == 'call' and v.ty == 'ptr':
            out = []
            for t in self.prog.targets(v):
                for c in self.gives.get(t, ()):
                    if c[0] == 'arg':
                        if c[1] < len(v.ops):
                            path, root = self.field(v.ops[c[1]])
                            out.append((self.klass(path, root), root))
                    else:
                        out.append((c, None))
            return out
        return []

    def provenance(self, v, seen=None):
        return {c for c, _ in self.sources(v)}

    def sources(self, v):
        out, seen, work = [], set(), [v]
        while work:
            x = work.pop()
            if x in seen or x.kind != 'inst':
                continue
            seen.add(x)
            o = self.origin(x)
            if o:
                out += o
            elif x.op in ('gep', 'bitcast'):
                work.append(x.ops[0])
            elif x.op == 'phi':
                work += [y for y in x.ops]
            elif x.op == 'select':
                work += list(x.ops[1:])
        return out

    # ------------------------------------------------------------------ user code
    def user_code(self):
        proj = [f for f in self.mod.defined()]
        self.user = {f for f in proj if strip_dot(f.name) in ('Py_DECREF', 'Py_XDECREF')}
        ch = True
        while ch:
            ch = False
            for f in proj:
                if f in self.user:
                    continue
                for i in f.insts():
                    if i.op == 'call' and self.runs_user(i):
                        self.user.add(f)
                        ch = True
                        break

    def runs_user(self, i):
        n = strip_dot(i.cname())
        if n is None:
            ts = self.prog.targets(i)
            if not ts:
                # an unresolved indirect call: a type slot (tp_free, tp_alloc) of an object
                return not self.slotcall(i)
            return any(t in self.user for t in ts)
        f = self.mod.funcs.get(i.callee.name) if i.callee.kind == 'func' else None
        if f is not None and not f.decl:
            return f in self.user
        if n in ('PyArg_ParseTuple', 'PyArg_Parse', 'PyArg_ParseTupleAndKeywords'):
            from common import cstr
            k = 2 if n.endswith('Keywords') else 1
            fmt = cstr(i.ops[k]) if len(i.ops) > k else None
            if fmt is None:
                return True
            s = fmt.split(':')[0].split(';')[0]
            if n == 'PyArg_Parse' and s in ('f', 'd') and self.checked_float(i):
                return False
            return any(c not in 'OsS|!()$zU#' for c in s)
        if n in CHECKED:
            return not self.typechecked(i)
        if n in QUIET or n in ('Py_INCREF', 'Py_XINCREF'):
            return False
        if n in ('PyErr_Format', 'PyUnicode_FromFormat', 'Py_BuildValue'):
            from common import cstr
            k = {'PyErr_Format': 1}.get(n, 0)
            fmt = cstr(i.ops[k])
            return fmt is None or any(x in fmt for x in ('%S', '%R', '%A', '%V', 'O&'))
        if n.startswith('Py') or n.startswith('_Py'):
            return True
        return False

    def slotcall(self, i):
        """a call through tp_free / tp_alloc of a type object"""
        c = strip(i.callee)
        if c.kind == 'inst' and c.op == 'load':
            path, root = self.field(c.ops[0])
            if path and self.prog.struct_field(*path[-1]) in ('tp_free', 'tp_alloc'):
                return True
        return False

    def typechecked(self, i):
        """some test of the object's type flags dominates the call (PyLong_Check / PyFloat_Check of the same object)"""
        return self._checked(i, i.ops[0])

    def checked_float(self, i):
        return self._checked(i, i.ops[0])

    def _checked(self, call, obj):
        f = call.fn
        obj = strip(obj)
        for b in f.blocks:
            for j in b.insts:
                if j.op == 'call' and strip_dot(j.cname()) in ('Py_TYPE', 'PyType_HasFeature', 'PyObject_TypeCheck', 'PyType_IsSubtype',
                                                              'Py_IS_TYPE') and j.ops and \
                        (strip(j.ops[0]) is obj or j.ops[0].kind == 'inst' and j.ops[0].op == 'call' and j.ops[0].ops and
                         strip(j.ops[0].ops[0]) is obj) and engine.inst_dominates(j, call):
                    return True
        # the test was inlined: a load of the object's type dominates the call
                if j.op == 'load' and j.ty == 'ptr':
                    path, root = self.field(j.ops[0])
                    if path and path[-1][0] == '%struct._object' and self.prog.struct_field(*path[-1]) == 'ob_type' and \
                            root is obj and engine.inst_dominates(j, call):
                        return True
        return False

    # ------------------------------------------------------------------ pin
    def is_pv(self, v):
        path, root = self.field(v)
        return (PV, self.k_arr) in path

    def pin(self):
        self.need = {f: {(k, 0) for k in ks} for f, ks in self.resize.items() if ks and not any(self.is_direct(i) for i in f.insts())}
        dealloc = set()
        for g, tn, slots, methods, _ in self.prog.py_types():
            if slots.get('tp_dealloc'):
                dealloc.add(slots['tp_dealloc'])
        done = set()
        work = [f for f in self.prog.funcs]
        rounds = 0
        while work and rounds < 8:
            rounds += 1
            again = set()
            for f in work:
                if f in dealloc or not self.pinsites(f):
                    continue
                cl = Pin(self, f)
                eng = Engine(self.mod, f, cl, self.modref)
                eng.run()
                if eng.truncated:
                    raise AnalysisBroken('%s: state space too large' % f.name)
                for site, (arg, trail) in cl.failed.items():
                    # the caller must have found the vector unexported
                    if arg is not None and f.name not in self.prog.addr_taken and self.prog.callsites(f.name):
                        s = self.need.setdefault(f, set())
                        if arg not in s:
                            s.add(arg)
                            again.update(c.fn for c in self.prog.callsites(f.name))
                    else:
                        self.rep.bad('pin:%s:%s' % (f.name, strip_dot(site.cname()) if site.op == 'call' else 'store'),
                                     '%s%s in %s: resizes the storage of a vector without having found that no buffer is exported '
                                     '(since the last call that may run user code)%s' % (self.tag, site.loc(), f.name, trail))
                if f not in done:
                    done.add(f)
                    self.rep.count('resizing calls on exportable arrays', len(self.pinsites(f)))
                    self.rep.ok(len(self.pinsites(f)) - len(cl.failed))
            work = [f for f in self.prog.funcs if f in again]

    def is_direct(self, i):
        return False

    def pinsites(self, f):
        """instructions of f that resize the array of a primitive vector"""
        out = []
        for i in f.insts():
            if i.op == 'call':
                for k, off in self.resized(i):
                    if off != 0 or self.is_pv(i.ops[k]):
                        out.append(i)
                        break
                else:
                    n = i.cname() or ''
                    if n.startswith('llvm.memcpy') and self.is_pv(i.ops[0]):
                        out.append(i)
            elif i.op == 'store':
                dc = self.dyncell(i.ops[1])
                if dc and (PV, self.k_arr) in dc[2]:
                    out.append(i)
        return out

    def resized(self, call):
        out = set()
        for t in self.prog.targets(call):
            for k, off in self.need.get(t, ()):
                if k < len(call.ops):
                    out.add((k, off))
        return out

    # ------------------------------------------------------------------ balance
    def balance(self):
        n = 0
        for g, tn, slots, methods, _ in self.prog.py_types():
            gb, rb = slots.get('bf_getbuffer'), slots.get('bf_releasebuffer')
            if gb is None:
                continue
            counted = g.startswith('PyPointlessPrimVectorType')
            cl = Bal(self, gb, counted)
            eng = Engine(self.mod, gb, cl, self.modref)
            eng.run()
            n += 1
            self.rep.count('buffer export paths', cl.n)
            if cl.n == 0:
                raise AnalysisBroken('%s: no path analysed' % gb.name)
            if counted:
                if rb is None:
                    self.rep.bad('release:%s' % g, '%s: exports are counted but no release function is registered' % g)
                    continue
                cl = Bal(self, rb, counted, True)
                eng = Engine(self.mod, rb, cl, self.modref)
                eng.run()
                self.rep.count('buffer release paths', cl.n)
        if n == 0 or not any(s.get('bf_getbuffer') for g, _, s, _, _ in self.prog.py_types() if g.startswith('PyPointlessPrimVectorType')):
            raise AnalysisBroken('buffer functions of the primitive vector not found')
        # every other store of the counter
        gbs = set()
        for g, tn, slots, methods, _ in self.prog.py_types():
            gbs.update(x for x in (slots.get('bf_getbuffer'), slots.get('bf_releasebuffer')) if x is not None)
        for f in self.prog.funcs:
            if f in gbs:
                continue
            for i in f.insts():
                if i.op == 'store':
                    path, root = self.field(i.ops[1])
                    if path and path[-1] == (PV, self.k_exp):
                        self.rep.count('other stores of the export counter')
                        v = i.ops[0]
                        if v.kind == 'int' and v.n == 0:
                            self.rep.ok()
                        else:
                            self.rep.bad('counter:%s' % f.name, '%s%s in %s: the export counter is changed outside the buffer functions' % (self.tag, i.loc(), f.name))

    # ------------------------------------------------------------------ borrow
    def borrow(self):
        for f in self.prog.funcs:
            Borrow(self, f).go()


class Pin(Client):
    """typestate: the last call that may have run user code, and the vectors found to be unexported since"""

    def __init__(self, a, f):
        self.a, self.f = a, f
        self.failed = {}
        self.fresh = {i for i in f.insts() if i.op == 'call' and (strip_dot(i.cname()) in FRESH or i.cname() is None and a.slotcall(i))}

    def start(self, eng, st):
        st.ps = (0, frozenset())

    def rename(self, ps, sub):
        return ps[0], frozenset(sub(x) for x in ps[1])

    def psterms(self, ps):
        return ps[1]

    def after_branch(self, eng, st, cond, truth):
        # states that know a vector to be unexported are kept apart from those that do not
        new = {k[0] for k, t in st.mem.items() if k[1] == 'i32' and self.expcell(eng, k[0]) and eng.srange(st, t, 32)[1] <= 0}
        if not new <= st.ps[1]:
            st.ps = (st.ps[0], st.ps[1] | new)

    def expcell(self, eng, t):
        """the term is the address of the export counter of some vector"""
        inf = eng.addrinfo.get(t)
        return inf is not None and inf[0] == PV and inf[1] == (self.a.k_exp,)

    def load(self, eng, st, inst, addr):
        if self.expcell(eng, addr) and (addr, inst.ty) not in st.mem:
            st.mem[(addr, inst.ty)] = ('c', 'exp', addr, st.ps[0])
            return None
        return None

    def forget(self, eng, st, inst):
        """user code may have exported any vector"""
        for k in [k for k in st.mem if self.expcell(eng, k[0])]:
            del st.mem[k]
        isexp = lambda t: t[0] == 'c' and len(t) > 1 and t[1] == 'exp'
        ch = [v for v, t in st.env.items() if engine.contains(t, isexp)]
        for v in ch:
            st.env[v] = ('i', v.idx)
        for t in [t for t in st.facts if engine.contains(t, isexp)]:
            del st.facts[t]
        st.rels = frozenset(r for r in st.rels if not any(isinstance(x, tuple) and engine.contains(x, isexp) for x in r[1:]))
        st.ps = (inst.idx, frozenset())

    def unexported(self, eng, st, arr):
        """the vector whose array is at this address is known to have no exports"""
        b = eng.base(arr)
        cell = eng.off(arr, self.a.o_exp - self.a.o_arr)
        t = st.mem.get((cell, 'i32'))
        if cell in st.ps[1]:
            return True
        if t is not None and eng.srange(st, t, 32)[1] <= 0:
            return True
        for i in self.fresh:
            if st.env.get(i) == b or b == ('i', i.idx):
                return True
        return False

    def demand(self, eng, st, inst, arr):
        if self.unexported(eng, st, arr):
            return
        arg = None
        if arr[0] == 'off' and arr[1][0] == 'a' and arr[2] == self.a.o_arr and st.ps[0] == 0:
            arg = (arr[1][1], self.a.o_arr)
        if inst not in self.failed or self.failed[inst][0] is not None:
            self.failed[inst] = (arg, '')

    def call(self, eng, st, inst, args):
        n = inst.cname() or ''
        for k, off in self.a.resized(inst):
            if off or self.a.is_pv(inst.ops[k]):
                self.demand(eng, st, inst, eng.off(args[k], off))
        if n.startswith('llvm.memcpy') and self.a.is_pv(inst.ops[0]):
            self.demand(eng, st, inst, args[0])
        if self.a.runs_user(inst):
            eng.default_call(st, inst, args)
            self.forget(eng, st, inst)
            return [(st, st.env.get(inst) if inst.ty != 'void' else None)]
        keep = {k: v for k, v in st.mem.items() if self.expcell(eng, k[0])}
        eng.default_call(st, inst, args)
        # the counter is stored by the buffer functions only (checked), which run inside calls of the C API
        st.mem.update(keep)
        return [(st, st.env.get(inst) if inst.ty != 'void' else None)]

    def store(self, eng, st, inst, addr, val):
        dc = self.a.dyncell(inst.ops[1])
        if dc and (PV, self.a.k_arr) in dc[2]:
            fo = self.a.mod.field_off(self.a.dyn, [k for k, c in self.a.cells.items() if c == dc[0]][0])
            self.demand(eng, st, inst, eng.off(addr, -fo))
        if self.expcell(eng, addr) and val == engine.K0 and not self.unexported(eng, st, eng.off(addr, self.a.o_arr - self.a.o_exp)):
            self.a.rep.bad('reset:%s' % self.f.name, '%s%s in %s: the export counter of a vector that may be exported is set to zero' % (
                self.a.tag, inst.loc(), self.f.name))


class Bal(Client):
    """typestate: net change of the export counter of parameter 0"""

    def __init__(self, a, f, counted, release=False):
        self.a, self.f, self.counted, self.release = a, f, counted, release
        self.n = 0
        self.fills = set()

    def start(self, eng, st):
        st.ps = 0
        if self.counted:
            self.cell = eng.off(('a', 0), self.a.o_exp)
            st.mem[(self.cell, 'i32')] = ('c', 'exports')

    def store(self, eng, st, inst, addr, val):
        if self.counted and addr == self.cell:
            d = None
            if val[0] == 'add' and val[1] == ('c', 'exports') and val[2][0] == 'k':
                d = engine.sx(val[2][1], 32)
            elif val == ('c', 'exports'):
                d = 0
            st.ps = d

    def call(self, eng, st, inst, args):
        n = strip_dot(inst.cname())
        if n in ('PyBuffer_FillInfo', 'PyObject_GetBuffer'):
            if n == 'PyBuffer_FillInfo' and args[1] != ('a', 0):
                self.a.rep.bad('exporter:%s' % self.f.name, '%s%s in %s: the view does not keep the exporting object alive (the exporter passed '
                               'is not the object itself)' % (self.a.tag, inst.loc(), self.f.name))
            else:
                self.a.rep.ok()
            if n == 'PyBuffer_FillInfo' and self.counted and inst not in self.fills:
                self.fills.add(inst)
                cs = self.a.sources(inst.ops[2])
                if not any(c == ('s', PV, self.a.k_arr) for c, _ in cs):
                    self.a.rep.bad('storage:%s' % self.f.name, '%s%s in %s: the exported memory is not the storage of the vector' % (
                        self.a.tag, inst.loc(), self.f.name))
                else:
                    self.a.rep.ok()
        cells = {k: v for k, v in st.mem.items() if self.counted and k[0] == self.cell}
        eng.default_call(st, inst, args)
        st.mem.update(cells)
        return [(st, st.env.get(inst) if inst.ty != 'void' else None)]

    def ret(self, eng, st, inst, val):
        self.n += 1
        if not self.counted:
            return
        if self.release:
            self.a.rep.check(st.ps == -1, 'release:%s' % self.f.name, '%s%s in %s: releasing a buffer changes the export counter by %s instead of '
                             '-1' % (self.a.tag, inst.loc(), self.f.name, st.ps))
            return
        lo, hi = eng.srange(st, val, 32)
        if st.ps is None:
            okk = False
        elif lo >= 0:
            okk = st.ps == 1
        elif hi < 0:
            okk = st.ps == 0
        else:
            okk = False
        self.a.rep.check(okk, 'getbuffer:%s' % self.f.name, '%s%s in %s: the export counter changes by %s on a path that returns %s' % (
            self.a.tag, inst.loc(), self.f.name, st.ps, 'success' if lo >= 0 else 'failure' if hi < 0 else 'either'))


class Borrow:
    """may-be-stale dataflow of one function"""

    def __init__(self, a, f):
        self.a, self.f = a, f

    def root(self, v):
        """the object an array value lives in: alloca / fresh object / other"""
        while v is not None and v.kind == 'inst' and v.op in ('gep', 'bitcast'):
            v = v.ops[0]
        return v

    def distinct(self, x, y):
        """two array roots of one class that cannot be the same object"""
        x, y = (self.root(z) if z is not None else None for z in (x, y))
        if x is None or y is None or x is y:
            return False
        return self.own(x) or self.own(y)

    def own(self, v):
        return v.kind == 'inst' and (v.op == 'alloca' or v.op == 'call' and (strip_dot(v.cname()) in FRESH or v.cname() is None and self.a.slotcall(v)))

    def go(self):
        a, f = self.a, self.f
        src = {}
        for i in f.insts():
            o = a.origin(i)
            if o:
                src[i] = o
        if not src:
            return
        a.rep.count('functions that take pointers into growable storage')
        a.rep.count('pointers taken into growable storage', len(src))
        # derived values
        prov = {i: set(map(self.key, o)) for i, o in src.items()}
        deriv = {}
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i in src:
                    continue
                if i.op in ('gep', 'bitcast'):
                    ops = i.ops[:1]
                elif i.op == 'phi':
                    ops = i.ops
                elif i.op == 'select':
                    ops = i.ops[1:]
                else:
                    continue
                s = set()
                for o in ops:
                    s |= prov.get(o, set())
                if s - prov.get(i, set()):
                    prov[i] = prov.get(i, set()) | s
                    deriv[i] = [o for o in ops if o.kind == 'inst']
                    ch = True
        # memory of this function that holds such a pointer
        held = {}
        for i in f.insts():
            if i.op == 'store' and i.ops[0] in prov:
                r = self.root(i.ops[1])
                if r.kind == 'inst' and r.op == 'alloca':
                    held.setdefault(r, set()).update(prov[i.ops[0]])
        self.prov, self.deriv, self.src, self.held = prov, deriv, src, held
        mv = {}
        for i in f.insts():
            if i.op == 'call':
                m = self.moved(i)
                if m:
                    mv[i] = m
                    a.rep.count('calls that may move growable storage')
            elif i.op == 'store':
                dc = a.dyncell(i.ops[1])
                if dc and dc[0] == '_data':
                    mv[i] = {(a.klass(dc[2], dc[3]), dc[3])}
        self.aliased(mv)
        if not mv:
            a.rep.ok()
            return
        IN = {f.blocks[0]: frozenset()}
        work = [f.blocks[0]]
        while work:
            b = work.pop()
            s = self.flow(b, IN[b], mv, False)
            for t in b.succs():
                s2 = set(s)
                for p in t.insts:
                    if p.op != 'phi':
                        break
                new = frozenset(self.phis(b, t, s))
                if t not in IN:
                    IN[t] = new
                    work.append(t)
                elif not new <= IN[t]:
                    IN[t] = IN[t] | new
                    work.append(t)
        for b in f.blocks:
            if b in IN:
                self.flow(b, IN[b], mv, True)
        a.rep.ok(len(src))

    @staticmethod
    def key(cr):
        return cr

    def moved(self, call):
        """[(class, root)] of arrays this call may move"""
        a = self.a
        out = set()
        for t in a.prog.targets(call):
            if t in a.moves:
                for c in a.moves[t]:
                    if c[0] == 'arg':
                        if c[1] < len(call.ops):
                            path, root = a.field(call.ops[c[1]])
                            out.add((a.klass(path, root), root))
                    elif c[0] != 'al':
                        out.add((c, None))
        if a.pv and a.runs_user(call):
            out.add((('s', PV, a.k_arr), None))
            for s, k in a.slots:
                out.add((('s', s, k), None))
        return out

    def hit(self, moved, prov):
        for c, r in moved:
            for c2, r2 in prov:
                if c == ('any',) or c2 == ('any',) or c == c2:
                    if not self.distinct(r, r2):
                        return True
        return False

    def aliased(self, mv):
        """an array appended from its own storage"""
        a = self.a
        for i, m in mv.items():
            if i.op != 'call':
                continue
            for t in a.prog.targets(i):
                for k in a.resize.get(t, ()):
                    if k >= len(i.ops):
                        continue
                    path, root = a.field(i.ops[k])
                    c = a.klass(path, root)
                    for j, o in enumerate(i.ops):
                        if j != k and o in self.prov and self.hit({(c, root)}, self.prov[o]):
                            a.rep.bad('self:%s:%s' % (self.f.name, strip_dot(i.cname())),
                                      '%s%s in %s: an array is extended from a pointer that may point into its own storage' % (
                                          a.tag, i.loc(), self.f.name))

    def phis(self, b, t, s):
        out = set(s)
        for p in t.insts:
            if p.op != 'phi':
                break
            if p in self.prov:
                out.discard(p)
                for o, blk in p.incoming:
                    if blk is b and o in s:
                        out.add(p)
        return out

    def flow(self, b, s, mv, report):
        a = self.a
        s = set(s)
        for i in b.insts:
            if i.op == 'phi':
                continue
            if s and report:
                self.uses(i, s)
            if i in mv:
                for v, p in self.prov.items():
                    if v not in s and self.hit(mv[i], p):
                        s.add(v)
                for v, p in self.held.items():
                    if v not in s and self.hit(mv[i], p):
                        s.add(('held', v))
            if i.op == 'store' and i.ops[0] in self.prov and i.ops[0] not in s:
                r = self.root(i.ops[1])
                s.discard(('held', r))
            if i in self.src:
                s.discard(i)
            elif i in self.deriv:
                if any(o in s for o in self.deriv[i]):
                    s.add(i)
                else:
                    s.discard(i)
        return s

    def uses(self, i, s):
        a = self.a
        bad = None
        if i.op == 'load' and i.ops[0] in s:
            bad = i.ops[0]
        elif i.op == 'store' and (i.ops[1] in s or i.ops[0] in s):
            bad = i.ops[1] if i.ops[1] in s else i.ops[0]
        elif i.op == 'call':
            for o in i.ops:
                if o in s:
                    bad = o
                elif o.kind == 'inst' and ('held', self.root(o)) in s:
                    bad = o
        elif i.op == 'ret' and i.ops and i.ops[0] in s:
            bad = i.ops[0]
        if bad is not None:
            a.rep.bad('stale:%s:%s' % (self.f.name, i.op if i.op != 'call' else strip_dot(i.cname()) or 'call'),
                      '%s%s in %s: a pointer into growable storage (taken at %s) is used after the storage may have moved' % (
                          a.tag, i.loc(), self.f.name, bad.loc()))
