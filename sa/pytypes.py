"""Type checks before uses: every access to a Python object as a concrete type is reached only by objects
whose type was established (by a check on the path, by construction, or by the interpreter's calling convention).

Per function a path-sensitive pass collects what is known about each object at every access, call argument,
return and field store; accesses not covered locally become requirements on where the object came from
(parameter, field, result, local), which are propagated backwards over the whole program."""
import re

import engine
from engine import Client, Engine
from common import strip_dot

CPY = {'%struct.PyTupleObject': 'tuple', '%struct.PyListObject': 'list', '%struct.PyASCIIObject': 'unicode', '%struct.PyCompactUnicodeObject': 'unicode',
       '%struct.PyUnicodeObject': 'unicode', '%struct.PyBytesObject': 'bytes', '%struct.PyByteArrayObject': 'bytearray', '%struct.PyFloatObject': 'float',
       '%struct._longobject': 'int', '%struct.PySetObject': 'set', '%struct.PyDictObject': 'dict', '%struct.PySliceObject': 'slice'}
FLAGS = {24: 'int', 25: 'list', 26: 'tuple', 27: 'bytes', 28: 'unicode', 29: 'dict'}
TYPES = {'PyLong_Type': 'int', 'PyBool_Type': 'int', 'PyList_Type': 'list', 'PyTuple_Type': 'tuple', 'PyBytes_Type': 'bytes', 'PyUnicode_Type': 'unicode',
         'PyDict_Type': 'dict', 'PyFloat_Type': 'float', 'PySet_Type': 'set', 'PyFrozenSet_Type': 'set', 'PyByteArray_Type': 'bytearray', 'PySlice_Type': 'slice'}
INLINE = re.compile(r'^_?Py(Tuple|List|Unicode|Bytes|ByteArray|Float|Long|Set|Dict|AnySet)_([A-Z]+[A-Z0-9]*)(_[A-Z0-9]+)*$')
RAW = {'PySlice_Unpack': 'slice', 'PySlice_GetIndicesEx': 'slice', 'PySlice_GetIndices': 'slice', 'PyByteArray_AsString': 'bytearray', 'PyByteArray_Size': 'bytearray',
       'PyByteArray_Resize': 'bytearray'}
RESULT = [(re.compile(r'^PyTuple_(New|Pack)$|^PySequence_Tuple$|^PyList_AsTuple$'), {'tuple'}), (re.compile(r'^PyList_New$|^PySequence_List$|^PyDict_(Keys|Values|Items)$'), {'list'}),
          (re.compile(r'^PySequence_Fast$'), {'list', 'tuple'}), (re.compile(r'^PyUnicode_(From\w*|New|Format|Join|Concat|Decode\w*|Substring)$|^PyObject_(Repr|Str|ASCII)$'), {'unicode'}),
          (re.compile(r'^PyLong_From\w*$|^PyNumber_(Long|Index)$|^PyBool_FromLong$'), {'int'}), (re.compile(r'^PyFloat_From\w*$|^PyNumber_Float$'), {'float'}),
          (re.compile(r'^PyBytes_From\w*$|^PyUnicode_As\w*String$|^PyObject_Bytes$'), {'bytes'}), (re.compile(r'^PyByteArray_From\w*$'), {'bytearray'}),
          (re.compile(r'^PyDict_(New|Copy)$'), {'dict'}), (re.compile(r'^PySet_New$|^PyFrozenSet_New$'), {'set'}), (re.compile(r'^PySlice_New$'), {'slice'})]


class PyTypes:
    def __init__(self, prog):
        self.prog = prog
        self.types = {}             # type global -> struct
        self.structs = {}           # struct -> type globals
        self.known_param = {}       # (func, k) -> alternatives the interpreter guarantees
        self.entries = prog.entry_points()
        self.tp_new = {}
        self.access = {}            # node -> {key: (site, chain)}
        self.selectors = {f.name for f in prog.funcs if f.retty == 'ptr' and any(
            i.op == 'ret' and i.ops and returns_function(i.ops[0]) for i in f.insts())}
        self.edges = {}             # dest node -> {(src, known)}: site
        self.disp, self.newdisp = {}, {}    # function -> {field: types the selecting function had established}
        self.direct = {i.callee.name for f in prog.funcs for i in f.insts() if i.op == 'call' and i.callee.kind == 'func'}
        self.sites = {}             # (function, k) -> how callers supply the parameter
        self.imp = {}               # function -> {outcome: {param: types}}
        self.counts = {'type-checked accesses': 0, 'accesses': 0, 'accesses through joined values': 0, 'type tests': 0}
        self.viol = {}
        self.entry_types()

    # ---- what the interpreter guarantees
    def entry_types(self):
        prog = self.prog
        self_of = {}
        meth = {}
        for g in prog.mod.globals.values():
            if 'PyMethodDef' in g.valty and g.init is not None and g.init.elems:
                for e in g.init.elems:
                    if e.kind == 'agg' and e.elems[1].kind == 'func':
                        meth[e.elems[1].name] = e.elems[2].n if e.elems[2].kind == 'int' else 0
        for g, tn, slots, methods, flds in prog.py_types():
            sty = self.self_struct(slots, methods, flds)
            if sty is None:
                continue
            self.types[g] = sty
            self.structs.setdefault(sty, set()).add(g)
        for g, tn, slots, methods, flds in prog.py_types():
            sty = self.types.get(g)
            if sty is None:
                continue
            for s, f in slots.items():
                if s == 'tp_new':
                    self.tp_new.setdefault(f.name, set()).add(sty)
                    self.known_param[(f.name, 1)] = {'tuple'}
                    continue
                self.known_param.setdefault((f.name, 0), set()).add(sty)
                if s == 'tp_init':
                    self.known_param[(f.name, 1)] = {'tuple'}
                if s in ('tp_init', 'tp_call'):
                    self.known_param[(f.name, 2)] = {'dict'}
            for _, f in methods:
                self.known_param.setdefault((f.name, 0), set()).add(sty)
        for n, fl in meth.items():
            if fl & 1:
                self.known_param[(n, 1)] = {'tuple'}
                if fl & 2:
                    self.known_param[(n, 2)] = {'dict'}

    def self_struct(self, slots, methods, flds):
        """the struct behind a Python type: the one of the size of its instances its own functions access"""
        n = {}
        bs = flds.get('tp_basicsize')
        for f in list(slots.values()) + [m for _, m in methods]:
            for i in f.insts():
                if i.op == 'gep' and i.srcty.startswith('%struct.PyPointless') and len(i.ops) > 2 \
                        and (bs is None or bs.kind != 'int' or self.prog.mod.size_of(i.srcty) == bs.n):
                    w = 3 if i.ops[0].kind == 'arg' and i.ops[0].idx == 0 else 1
                    n[i.srcty] = n.get(i.srcty, 0) + w
        return max(sorted(n), key=lambda k: n[k]) if n else None

    # ---- run
    def run(self):
        todo = [f for f in self.prog.funcs if f.file.startswith('python/') or f.file == 'pointless_ext.c']
        # type predicates first: their callers learn from them
        for rnd in range(3):
            before = ({k: v for k, v in self.imp.items()}, self.disp)
            self.newdisp = {}
            self.access, self.edges, self.sites = {}, {}, {}
            for k in self.counts:
                self.counts[k] = 0
            for f, o, unit, opt, i in parse_formats(self.prog):
                fld = fieldof(self.prog.mod, o)
                if o.kind == 'inst' and o.op == 'alloca' or fld is not None:
                    node = ('F',) + fld if fld is not None else ('L', f.name, o.idx)
                    known = None
                    if unit and unit[0] == 'type' and unit[1].kind == 'global':
                        key = TYPES.get(unit[1].name) or self.types.get(unit[1].name)
                        known = frozenset([key]) if key else None
                    elif unit and unit[0] == 'key' and unit[1]:
                        known = frozenset([unit[1]])
                    elif unit and unit[0] == 'raw':
                        continue
                    self.edge(node, ('X', 'argument parsed at %s' % i.loc()), known, i.loc())
            for f in todo:
                self.one(f)
            self.disp = {f: {k: v for k, v in d.items() if v} for f, d in self.newdisp.items()}
            if before == (self.imp, self.disp):
                break
        self.counts['functions'] = len(todo)
        self.solve()
        return self

    def one(self, f):
        cl = TypeClient(self, f)
        eng = Engine(self.prog.mod, f, cl, None, kmax=6)
        eng.run()
        if eng.truncated:
            self.counts['truncated'] = self.counts.get('truncated', 0) + 1
        for i in f.insts():
            if i.op == 'phi' and i.ty == 'ptr':
                for v, _ in i.incoming:
                    src = cl.static(v)
                    if src not in (None, 'lost'):
                        self.edge(('V', f.name, i.idx), src, None, i.loc())
        self.imp[f.name] = cl.implied()
        for k, v in cl.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def require(self, node, key, site, chain):
        d = self.access.setdefault(node, {})
        if key not in d:
            d[key] = (site, chain)
            return True
        return False

    def edge(self, dst, src, known, site):
        d = self.edges.setdefault(dst, {})
        d.setdefault((src, known), site)

    @staticmethod
    def allowed(key, known):
        return all(a == key for a in known)

    def layout(self, sty):
        b = self.prog.mod.structs.get(sty)
        return tuple(b[:-1]) if b else sty

    def solve(self):
        work = [(n, k) for n, d in list(self.access.items()) for k in d]
        while work:
            node, key = work.pop()
            site, chain = self.access[node][key]
            if node[0] == 'X':
                self.bad(key, site, chain, node[1])
                continue
            if node[0] == 'P' and node[1] in {f.name for f in self.entries}:
                kn = self.known_param.get((node[1], node[2]))
                if kn is None:
                    self.bad(key, site, chain, 'argument %d of %s' % (node[2], node[1]))
                elif not self.allowed(key, kn):
                    self.bad(key, site, chain, 'argument %d of %s, which is %s' % (node[2], node[1], '/'.join(sorted(kn))))
            if node[0] == 'FP':
                _, fn, k, fld, excl = node
                ent = fn in {f.name for f in self.entries}
                hows = self.sites.get((fn, k), {})
                nxt = [(('F',) + fld, None)] if ent else []
                for how, where in hows.items():
                    if how[0] == 'P':
                        nxt.append((('FP', how[1], how[2], fld, excl), where))
                    elif how[0] == 'selected':
                        kn = self.disp.get(fn, {}).get(fld)
                        if kn is None:
                            self.bad(key, site, chain + [where], 'nothing is established about the object when %s is selected' % fn)
                        elif not self.allowed(key, kn - excl):
                            self.bad(key, site, chain + [where], '%s is selected for %s' % (fn, '/'.join(sorted(kn - excl))))
                    elif how[0] == 'unselected' and self.disp.get(fn, {}).get(fld) is not None:
                        self.bad(key, site, chain + [where], '%s is called there without having been selected for this object' % fn)
                    else:
                        nxt.append((('F',) + fld, where))
                for n, where in nxt:
                    if self.require(n, key, site, chain + ([where] if where else [])):
                        work.append((n, key))
                continue
            if node[0] == 'C':
                for t in node[1]:
                    if self.require(('R', t), key, site, chain):
                        work.append((('R', t), key))
                continue
            for (src, known), where in self.edges.get(node, {}).items():
                if known is not None:
                    if not self.allowed(key, known):
                        self.bad(key, site, chain, '%s, where it is %s' % (where, '/'.join(sorted(known))))
                    continue
                if self.require(src, key, site, chain + [where]):
                    work.append((src, key))

    def bad(self, key, site, chain, src):
        fn, loc, what = site
        k = '%s:%s:%s' % (fn, nice(key), what)
        if k not in self.viol:
            self.viol[k] = '%s in %s: %s uses an object as %s that may be anything: %s%s' % (
                loc, fn, what, nice(key), src, ''.join('; passed at ' + c for c in chain[::-1][:5]))


def nice(k):
    return k.split('.')[-1] if k.startswith('%') else k


class TypeClient(Client):
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.insts = {i.idx: i for i in f.insts()}
        self.counts = {'type-checked accesses': 0, 'accesses': 0, 'accesses through joined values': 0, 'type tests': 0}
        self.rets = []
        self.seen = set()

    # ---- facts: ('t', x) alternatives, ('y', term) type-of x, ('p', term) (x, key, polarity)
    @staticmethod
    def get(st, key):               # plus ('n', x) excluded keys, ('s', r) object r was selected for, ('q', r) function r equals
        for k, v in st.ext:
            if k == key:
                return v
        return None

    @staticmethod
    def put(st, key, val):
        d = [e for e in st.ext if e[0] != key]
        if val is not None:
            d.append((key, val))
        st.ext = tuple(sorted(d, key=repr))

    def rename_ext(self, ext, sub):
        d = {}
        for k, v in ext:
            if k[0] == 'y':
                v = sub(v)
            elif k[0] == 'p':
                v = (sub(v[0]),) + v[1:]
            elif k[0] in 'sq':
                v = sub(v)
            d[(k[0], sub(k[1]))] = v
        return tuple(sorted(d.items(), key=repr))

    def extterms(self, ext):
        return [k[1] for k, v in ext if k[0] == 't']

    def pruned(self, eng, st):
        live = set(st.env.values()) | set(st.mem.values())
        e = []
        for k, v in st.ext:
            x = k[1]
            if k[0] in 'tn' and not (x in live or x[0] == 'a' or any(vv[0] == 'p' and vv[1] == x for vv, _ in st.ext)):
                continue
            if k[0] in 'yp' and not any(x == t or engine.contains(t, lambda q: q == x) for t in live):
                continue
            e.append((k, v))
        st.ext = tuple(e)

    def start(self, eng, st):
        st.ps = ()
        for a in self.f.args:
            kn = self.an.known_param.get((self.f.name, a.idx))
            if kn and self.entry():
                self.put(st, ('t', ('a', a.idx)), frozenset(kn))

    def entry(self):
        return self.f in self.an.entries

    def known(self, st, t):
        v = self.get(st, ('t', t))
        return v

    def learn(self, eng, st, x, key, truth):
        if x[0] in ('k', 'g', 'f'):
            return
        cur = self.known(st, x)
        if cur is not None and (key not in cur if truth else cur == {key}):
            self.contra = True
        if truth:
            self.put(st, ('t', x), frozenset([key]))
        elif cur is not None and len(cur - {key}) > 0:
            self.put(st, ('t', x), cur - {key})
        elif cur is None:
            self.put(st, ('n', x), (self.get(st, ('n', x)) or frozenset()) | {key})

    def feasible(self, eng, st, cond, truth):
        """a test that contradicts what is known about the object is not taken"""
        if not st.ext:
            return True
        self.contra = False
        e = st.ext
        self.cond(eng, st, cond, truth)
        st.ext = e
        return not self.contra

    def typekey(self, t):
        if t[0] in ('g', 'f'):
            n = t[1]
            if n in TYPES:
                return TYPES[n]
            if n in self.an.types:
                return self.an.types[n]
        return None

    def after_branch(self, eng, st, cond, truth):
        self.cond(eng, st, cond, truth)

    def cond(self, eng, st, c, truth):
        if c[0] == 'icmp':
            _, pred, a, b, w = c
            if b[0] != 'k' and a[0] == 'k':
                a, b = b, a
            if pred in ('eq', 'ne'):
                pos = truth == (pred == 'eq')
                for x, y in ((a, b), (b, a)):
                    o = self.get(st, ('y', x))
                    if o is not None:
                        key = self.typekey(y)
                        if key is not None:
                            self.counts['type tests'] += 1
                            self.learn(eng, st, o, key, pos)
                            return
                if pos and self.get(st, ('s', a)) is not None and self.get(st, ('s', b)) is not None:
                    self.put(st, ('q', a), b)
                    self.put(st, ('q', b), a)
                    return
                if b == ('k', 0):
                    self.truthy(eng, st, a, not pos)
                    return
                if b == ('k', 1):
                    if pos:
                        self.truthy(eng, st, a, True)
                    return
            elif pred in ('sgt', 'sge', 'ugt', 'uge') and truth and b in (('k', 0), ('k', 1)):
                self.truthy(eng, st, a, True)
        elif c[0] == 'xor':
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y[0] == 'k':
                    self.cond(eng, st, x, truth != bool(y[1] & 1))
        elif c[0] == 'and' and truth or c[0] == 'or' and not truth:
            self.cond(eng, st, c[1], truth)
            self.cond(eng, st, c[2], truth)

    def truthy(self, eng, st, a, truth):
        if a[0] in ('zext', 'sext', 'trunc'):
            if a[1][0] == 'icmp' or a[1][0] in ('and', 'or', 'xor') and a[2] == 1:
                self.cond(eng, st, a[1], truth)
                return
            a = a[1]
        if a[0] == 'icmp':
            self.cond(eng, st, a, truth)
            return
        if a[0] == 'and' and a[2][0] == 'k':
            p = self.get(st, ('y', a[1]))       # flags word of a type
            if p is not None and p[0] == 'flags':
                key = FLAGS.get(a[2][1].bit_length() - 1) if a[2][1] and a[2][1] & (a[2][1] - 1) == 0 else None
                if key:
                    self.learn(eng, st, p[1], key, truth)
                return
        p = self.get(st, ('p', a))
        if p is not None:
            self.counts['type tests'] += 1
            self.learn(eng, st, p[0], p[1], truth == p[2])
            return

    # ---- where a value comes from
    def source(self, eng, t, d=0):
        while t[0] == 'old':
            t = t[1:] if isinstance(t[1], str) else t[1]
        if t[0] == 'a':
            return ('P', self.f.name, t[1])
        if t[0] in ('k', 'g', 'f', 'al', 'undef'):
            return None
        if t[0] == 'top':
            return 'lost'
        if t[0] in ('i', 'phi'):
            i = self.insts.get(t[1])
            return self.static(i, d)
        return 'lost'

    def static(self, i, d=0):
        if i is None or d > 6:
            return 'lost'
        if i.kind == 'arg':
            return ('P', self.f.name, i.idx)
        if i.kind != 'inst':
            return None
        if i.op == 'load':
            p = i.ops[0]
            fld = fieldof(self.an.prog.mod, p)
            if fld is not None:
                return ('F',) + fld if fld[0] not in CPY else ('X', 'an item of a %s' % CPY[fld[0]])
            while p.kind == 'inst' and p.op in ('gep', 'bitcast'):
                p = p.ops[0]
            if p.kind == 'inst' and p.op == 'alloca':
                return ('L', self.f.name, p.idx)
            if p.kind == 'global':
                return ('G', p.name)
            return ('X', 'read at %s' % i.loc())
        if i.op == 'call':
            n = strip_dot(i.cname())
            ts = [t for t in self.an.prog.targets(i) if self.an.prog.is_project(t) and not t.decl]
            if ts:
                return ('C', tuple(t.name for t in ts))
            if n and n.lstrip('_') in ('Py_NewRef', 'Py_XNewRef'):
                return self.static(i.ops[0], d + 1)
            return ('X', 'result of %s at %s' % (n or 'a call', i.loc()))
        if i.op == 'phi':
            return ('V', self.f.name, i.idx)
        if i.op in ('bitcast', 'select', 'freeze'):
            return self.static(i.ops[-1], d + 1)
        return 'lost'

    def use(self, eng, st, t, key, inst, what):
        """object t is accessed as key"""
        s = (inst.idx, key)
        first = s not in self.seen
        self.seen.add(s)
        self.counts['accesses'] += first
        if t[0] in ('k', 'g', 'f', 'al'):
            return
        kn = self.known(st, t)
        site = (self.f.name, inst.loc(), what)
        if kn is not None:
            if self.an.allowed(key, kn) or all(self.an.layout(a) == self.an.layout(key) for a in kn):
                self.counts['type-checked accesses'] += first
            else:
                self.an.require(('X', 'here it is %s' % '/'.join(sorted(nice(x) for x in kn))), key, site, [])
            return
        n = self.source(eng, t)
        if isinstance(n, tuple) and n[0] == 'F' and not self.entry():
            k = self.fieldparam(eng, st, t)
            if k is not None:
                n = ('FP', self.f.name, k, n[1:], self.get(st, ('n', t)) or frozenset())
        self.need(n, key, site)

    def fieldparam(self, eng, st, t):
        """t is a field of what parameter k points to"""
        while t[0] == 'old':
            t = t[1:] if isinstance(t[1], str) else t[1]
        i = self.insts.get(t[1]) if t[0] == 'i' else None
        if i is None or i.op != 'load':
            return None
        p = i.ops[0]
        while p.kind == 'inst' and p.op in ('gep', 'bitcast'):
            p = p.ops[0]
        if p.kind == 'arg':
            return p.idx
        # at -O0 the parameter sits in a local
        b = st.env.get(p) if p.kind == 'inst' else None
        return b[1] if b is not None and b[0] == 'a' else None

    def need(self, n, key, site):
        if n is None:
            return
        if n == 'lost':
            self.counts['accesses through joined values'] += 1
            return
        self.an.require(n, key, site, [])

    def flow(self, eng, st, dst, t, site):
        if t is None or t[0] in ('k', 'g', 'f', 'al', 'undef'):
            return
        kn = self.known(st, t)
        src = self.source(eng, t)
        if src in (None, 'lost'):
            if kn is not None:
                self.an.edge(dst, None, kn, site)
            return
        self.an.edge(dst, src, kn, site)

    # ---- accesses
    def touch(self, eng, st, inst, ptr):
        p = ptr
        d = 0
        while p.kind in ('inst', 'cexpr') and p.op in ('gep', 'bitcast') and d < 12:
            d += 1
            if p.op == 'gep':
                key = p.srcty if p.srcty in self.an.structs else CPY.get(p.srcty)
                if key is not None and len(p.ops) > 2 and p.ops[1].kind == 'int' and p.ops[1].n == 0 and not (p.ops[2].kind == 'int' and p.ops[2].n == 0):
                    b = p.ops[0]
                    if b.kind != 'inst' or b in st.env or b.op == 'alloca':
                        self.use(eng, st, eng.ev(st, b), key, inst, 'access')
            p = p.ops[0]

    def load(self, eng, st, inst, addr):
        self.touch(eng, st, inst, inst.ops[0])
        # flags word of a type
        o = self.get(st, ('y', eng.base(addr)))
        if o is not None and o[0] != 'flags' and inst.ty == 'i64':
            self.put(st, ('y', ('i', inst.idx)), ('flags', o))
        p = inst.ops[0]
        d = self.an.disp.get(self.f.name)
        if d and inst.ty == 'ptr' and self.f.name not in self.an.direct:
            fld = fieldof(self.an.prog.mod, p)
            if fld in d and (addr, 'ptr') not in st.mem:
                self.put(st, ('t', ('i', inst.idx)), d[fld])
        if inst.ty == 'ptr' and p.kind == 'inst' and p.op == 'gep' and p.srcty == '%struct._object' and len(p.ops) > 2 and p.ops[2].kind == 'int' and p.ops[2].n == 1:
            v = st.mem.get((addr, 'ptr'), ('i', inst.idx))
            self.put(st, ('y', v), eng.base(addr))

    def store(self, eng, st, inst, addr, val):
        self.touch(eng, st, inst, inst.ops[1])
        if inst.ops[0].ty == 'ptr':
            fld = fieldof(self.an.prog.mod, inst.ops[1])
            if fld is not None:
                if fld[0] not in CPY:
                    self.flow(eng, st, ('F',) + fld, val, inst.loc())
            else:
                p = inst.ops[1]
                if p.kind == 'inst' and p.op == 'alloca':
                    self.flow(eng, st, ('L', self.f.name, p.idx), val, inst.loc())

    def call(self, eng, st, inst, args):
        an = self.an
        n = strip_dot(inst.cname())
        for o in inst.ops:
            if o.kind == 'inst' and o.op == 'gep':
                self.touch(eng, st, inst, o)
        ts = [t for t in an.prog.targets(inst) if an.prog.is_project(t) and not t.decl]
        if n and args:
            m = INLINE.match(n)
            key = RAW.get(n)
            if m and m.group(1) != 'AnySet' and n not in ('PyTuple_SET_ITEM', 'PyList_SET_ITEM'):
                key = {'Tuple': 'tuple', 'List': 'list', 'Unicode': 'unicode', 'Bytes': 'bytes', 'ByteArray': 'bytearray', 'Float': 'float', 'Long': 'int',
                       'Set': 'set', 'Dict': 'dict'}.get(m.group(1))
            if key and inst.ops[0].ty == 'ptr' and not (m and n.startswith('_Py')):
                self.use(eng, st, args[0], key, inst, n)
        for k, t in enumerate(args):
            if inst.ops[k].ty == 'ptr':
                how = ('other',)
                if t[0] == 'a' and not self.entry():
                    how = ('P', self.f.name, t[1])
                if inst.callee.kind != 'func':
                    c = eng.ev(st, inst.callee)
                    q = self.get(st, ('q', c))
                    sel = [self.get(st, ('s', x)) for x in (c, q) if x is not None]
                    if any(x is not None for x in sel):
                        how = ('selected',) if t in sel else ('unselected',)
                for f in ts:
                    self.flow(eng, st, ('P', f.name, k), t, inst.loc())
                    an.sites.setdefault((f.name, k), {}).setdefault(how, inst.loc())
        if ts and inst.ty == 'ptr' and args and all(f.name in an.selectors for f in ts):
            r = self.result(eng, st, inst, args)
            self.put(st, ('s', r), args[0])
            return [(st, r)]
        # what the interpreter tests
        if n in ('PyObject_TypeCheck', 'Py_IS_TYPE', 'PyObject_IsInstance') and len(args) > 1:
            key = self.typekey(args[1])
            r = self.result(eng, st, inst, args)
            if key:
                self.put(st, ('p', r), (args[0], key, True))
            return [(st, r)]
        if n == 'Py_TYPE':
            r = self.result(eng, st, inst, args)
            self.put(st, ('y', r), args[0])
            return [(st, r)]
        if n in ('PyType_HasFeature', 'PyType_FastSubclass', 'PyType_IsSubtype') and len(args) > 1:
            x = self.get(st, ('y', args[0]))
            key = self.typekey(args[1]) if n == 'PyType_IsSubtype' else None
            if n != 'PyType_IsSubtype' and args[1][0] == 'k' and args[1][1] > 0 and args[1][1] & (args[1][1] - 1) == 0:
                key = FLAGS.get(args[1][1].bit_length() - 1)
            r = self.result(eng, st, inst, args)
            if x is not None and key:
                self.put(st, ('p', r), (x, key, True))
            return [(st, r)]
        if n == 'PyType_GetFlags':
            x = self.get(st, ('y', args[0]))
            r = self.result(eng, st, inst, args)
            if x is not None:
                self.put(st, ('y', r), ('flags', x))
            return [(st, r)]
        if n and n.lstrip('_') in ('Py_NewRef', 'Py_XNewRef') and args:
            self.result(eng, st, inst, args)
            return [(st, args[0])]
        # objects of a known type
        kn = None
        if n == '_PyObject_New' or n in ('PyType_GenericAlloc', 'PyType_GenericNew', 'PyObject_CallObject', 'PyObject_CallFunction', 'PyObject_CallNoArgs',
                                         'PyObject_CallOneArg', 'PyObject_Call', 'PyObject_CallFunctionObjArgs'):
            key = self.typekey(args[0])
            if key:
                kn = {key}
            elif args[0] == ('a', 0) and self.f.name in an.tp_new:
                kn = an.tp_new[self.f.name]
        elif n is None and args and args[0] == ('a', 0) and self.f.name in an.tp_new and not ts:
            kn = an.tp_new[self.f.name]
        elif n is None and args and self.typekey(args[0]) and not ts:
            kn = {self.typekey(args[0])}
        elif n:
            for rx, k in RESULT:
                if rx.match(n):
                    kn = k
        if kn:
            r = self.result(eng, st, inst, args)
            self.put(st, ('t', r), frozenset(kn))
            return [(st, r)]
        # project predicates
        imp = None
        for f in ts:
            i = an.imp.get(f.name)
            if not i:
                imp = None
                break
            imp = i if imp is None else {o: [e for e in imp.get(o, []) if e in i.get(o, [])] for o in imp}
        if imp and any(imp.values()) and inst.ty in ('i32', 'i1', 'i8', 'ptr', 'i64'):
            r = self.result(eng, st, inst, args)
            out = []
            for truth in (True, False):
                s2 = st.copy()
                ok = eng.refine(s2, ('icmp', 'ne', r, ('k', 0), engine.width(inst.ty)), truth)
                if not ok:
                    continue
                for k, key in imp.get('nz' if truth else 'z', []):
                    if k < len(args):
                        self.learn(eng, s2, args[k], key, True)
                out.append((s2, r))
            if out:
                return out
        return None

    def result(self, eng, st, inst, args):
        eng.default_call(st, inst, args)
        return st.env.get(inst, ('i', inst.idx))

    def ret(self, eng, st, inst, val):
        if val is not None and self.f.retty == 'ptr':
            self.flow(eng, st, ('R', self.f.name), val, inst.loc())
        if val is not None and val[0] == 'f':
            d = self.an.newdisp.setdefault(val[1], {})
            for t in set(st.mem.values()):
                src = self.source(eng, t) if t[0] == 'i' else None
                if isinstance(src, tuple) and src[0] == 'F' and self.insts[t[1]].ty == 'ptr':
                    kn = self.known(st, t)
                    if kn is None or d.get(src[1:], ()) is None:
                        d[src[1:]] = None
                    else:
                        d[src[1:]] = d.get(src[1:], frozenset()) | kn
        facts = {k[1][1]: next(iter(v)) for k, v in st.ext if k[0] == 't' and k[1][0] == 'a' and len(v) == 1}
        if val is None or self.f.retty == 'void':
            outs = ('nz', 'z')
        else:
            w = engine.width(self.f.retty)
            c = eng.const_of(st, val, w) if w else None
            if self.f.retty == 'ptr' and eng.isnull(st, val) is False:
                outs = ('nz',)
            elif c is not None:
                outs = ('nz',) if c else ('z',)
            else:
                # the value is itself a test
                self.both(eng, st, val)
                return
        self.rets.append((outs, facts))

    def both(self, eng, st, val):
        for truth in (True, False):
            s2 = st.copy()
            self.truthy(eng, s2, val, truth) if val[0] != 'icmp' else self.cond(eng, s2, val, truth)
            facts = {k[1][1]: next(iter(v)) for k, v in s2.ext if k[0] == 't' and k[1][0] == 'a' and len(v) == 1}
            self.rets.append((('nz',) if truth else ('z',), facts))

    def implied(self):
        res = {}
        if self.entry():
            return {}
        for o in ('nz', 'z'):
            es = [set(d.items()) for outs, d in self.rets if o in outs]
            res[o] = sorted(set.intersection(*es)) if es else []
        return res


def returns_function(v, d=0):
    if v.kind == 'func':
        return True
    if v.kind == 'inst' and d < 4:
        if v.op == 'phi':
            return any(returns_function(x, d + 1) for x, _ in v.incoming)
        if v.op == 'select':
            return any(returns_function(x, d + 1) for x in v.ops[1:])
        if v.op == 'load' and v.ops[0].kind == 'inst' and v.ops[0].op == 'alloca':
            return any(i.op == 'store' and i.ops[1] is v.ops[0] and i.ops[0].kind == 'func' for b in v.fn.blocks for i in b.insts) if hasattr(v, 'fn') else False
    return False


def fieldof(mod, p):
    """(struct, index) of the innermost struct field a pointer denotes"""
    while p.kind in ('inst', 'cexpr') and p.op == 'bitcast':
        p = p.ops[0]
    while p.kind in ('inst', 'cexpr') and p.op == 'gep' and p.srcty.startswith('[') and p.ops[0].kind in ('inst', 'cexpr') and p.ops[0].op == 'gep':
        p = p.ops[0]
    if p.kind in ('inst', 'cexpr') and p.op == 'gep' and len(p.ops) > 2:
        return engine._innermost(mod, p.srcty, [o.n if o.kind == 'int' else None for o in p.ops[2:]])
    return None


def parse_formats(prog):
    """(function, alloca) -> type alternatives or None for every object argument parsed from a tuple"""
    from common import cstr
    out = {}
    sigs = {'PyArg_ParseTuple': (1, 2), 'PyArg_ParseTupleAndKeywords': (2, 4), 'PyArg_Parse': (1, 2)}
    for f in prog.funcs:
        for i in f.insts():
            if i.op != 'call':
                continue
            n = strip_dot(i.cname())
            n = n.replace('_SizeT', '').lstrip('_') if n else n
            if n == 'PyArg_UnpackTuple':
                for o in i.ops[4:]:
                    yield f, o, None, None, i
                continue
            if n not in sigs:
                continue
            fk, ak = sigs[n]
            fmt = cstr(i.ops[fk])
            if fmt is None:
                continue
            k = ak
            opt = False
            j = 0
            while j < len(fmt):
                c = fmt[j]
                j += 1
                if c in ':;':
                    break
                if c == '|':
                    opt = True
                    continue
                if c in '$()':
                    continue
                suf = ''
                while j < len(fmt) and fmt[j] in '!&#*':
                    suf += fmt[j]
                    j += 1
                if c == 'O' and suf == '!':
                    yield f, i.ops[k + 1], ('type', i.ops[k]), opt, i
                    k += 2
                elif c == 'O' and suf == '&':
                    yield f, i.ops[k + 1], None, opt, i
                    k += 2
                elif c in 'OSUY':
                    yield f, i.ops[k], ('key', {'O': None, 'S': 'bytes', 'U': 'unicode', 'Y': 'bytearray'}[c]), opt, i
                    k += 1
                elif c in 'sz' and suf == '#' or c == 'y' and suf == '#':
                    yield f, i.ops[k], ('raw', 8), opt, i
                    yield f, i.ops[k + 1], ('raw', 8), opt, i
                    k += 2
                elif c == 'e':
                    j += 1
                    k += 2
                else:
                    yield f, i.ops[k], ('raw', c + suf), opt, i
                    k += 1
