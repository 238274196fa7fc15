"""A04, continued: the code around the validator callback (pointless_init, open, validate, walk, hash table, cycle marker callbacks)."""
import engine
from common import AnalysisBroken, strip_dot
from engine import Engine, K0
from forall import Forall, strip
from lin import show

NOWRAP = (64,)


def neg(e):
    return {t: -c for t, c in e.items()}


def base_of(t):
    while t[0] in ('off', 'gep'):
        t = t[1]
    return t


def mk(Reader):
    class Part(Reader):
        """common parts: explores one function of the loader"""

        def __init__(self, prog, rep, fn, key):
            super().__init__(prog, rep)
            self.fn, self.key, self.n = fn, key, 0

        def v(self, what, msg, eng=None, st=None, inst=None):
            self.rep.bad('%s:%s' % (what, self.fn.name), '%s: %s%s' % (inst.loc() if inst is not None else self.fn.name, msg,
                         ' (path %s)' % eng.trail_str(st) if st is not None else ''))

        def start(self, eng, st):
            st.ps = ()

        def rename(self, ps, sub):
            return tuple(tuple(sub(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) for x in ps)

        def psterms(self, ps):
            return [y for x in ps for y in x if isinstance(y, tuple) and y and isinstance(y[0], str)]

        def quiet(self, eng, st, inst):
            """a call that does not write to memory the analysis tracks"""
            t = eng.fresh(st, inst)
            st.env[inst] = t
            return t

        def fork(self, eng, st, inst, what, *extra):
            out = []
            for s, truth in ((st.copy(), True), (st, False)):
                keep = dict(s.mem)
                eng.default_call(s, inst, [eng.ev(s, o) for o in inst.ops])
                s.mem = {**{k: t for k, t in keep.items() if base_of(k[0]) == ('a', 0)}, **s.mem}
                t = eng.fresh(s, inst)
                w = engine.width(inst.ty)
                eng.refine(s, ('icmp', 'ne' if truth else 'eq', t, K0, w), True)
                if not truth:
                    t = K0
                s.env[inst] = t
                s.ps = s.ps + ((what, truth) + extra,)
                out.append((s, t))
            return out

        def explore(self, kmax=60, maxsteps=20000):
            e = Engine(self.prog.mod, self.fn, self, None, kmax=kmax, maxsteps=maxsteps)
            e.maxdepth = 16
            if hasattr(self, 'setup'):
                self.setup(e)
            e.run()
            if e.truncated:
                raise AnalysisBroken('%s not fully explored' % self.fn.name)
            self.rep.ok(self.n)
            return e

        def possible(self, eng, st, val, w=32):
            """the returned value may be nonzero"""
            c = eng.const_of(st, val, w)
            if c is not None:
                return c != 0
            return not (eng.urange(st, val, w)[1] == 0)

    return Part


def init(Part, prog, rep, key, hdrsize):
    fn = prog.mod.funcs.get('pointless_init')
    if fn is None:
        raise AnalysisBroken('pointless_init not found')
    kinds = ('string_unicode', 'vector', 'bitvector', 'set', 'map')

    class Init(Part):
        def start(self, eng, st):
            st.ps = ()
            self.types = {('a', 0): 'pointless_t', ('a', 1): 'pointless_header_t'}

        def load(self, eng, st, inst, addr):
            off, b = (addr[2], addr[1]) if addr[0] == 'off' else (0, addr)
            if b == ('a', 1):
                self.n += 1
                sz = max(1, engine.width(inst.ty) // 8)
                L = self.lin(eng, st)
                L.facts()
                if not L.prove({('a', 2): 1, None: -(off + sz)}):
                    self.v('header-read', 'the header is read at %d before the length of the buffer was checked to cover it' % off, eng, st, inst)
                f = self.field('pointless_header_t', off)
                if f is not None and f[1] == 0:
                    st.mem[(addr, inst.ty)] = self.sym(f[0], engine.width(inst.ty))
            elif b[0] not in ('al', 'g') and b != ('a', 0):
                L = self.lin(eng, st)
                e = L.u(addr, 64)
                if e.get(('a', 1)) == 1:
                    self.v('early-read', 'the file is read at [%s] while it is opened, unchecked' % show(e), eng, st, inst)

        def call(self, eng, st, inst, args):
            if strip_dot(inst.cname() or '') == 'pointless_validate':
                c = st.mem.get((args[0], 'ptr')) if args else None
                if c is not None and c != ('a', 0):
                    self.v('validates-other', 'validates something other than the file being opened', eng, st, inst)
                return self.fork(eng, st, inst, 'validated')
            return None

        def ret(self, eng, st, inst, val):
            if not self.possible(eng, st, val):
                return
            self.n += 1
            L = self.lin(eng, st)
            L.nowrap = NOWRAP
            L.facts()
            if ('validated', True) not in st.ps and not eng.isnull(st, ('a', 3)):
                self.v('not-validated', 'opens a file without validating it although validation was asked for', eng, st, inst)
            ver = self.sym('version', 32)
            if eng.const_of(st, ver, 32) != key['FF_VERSION_OFFSET_64_NEWHASH']:
                self.v('version', 'opens a file without having checked the format version', eng, st, inst)
            offs = {n: o // 8 for o, n, _, sz in self.prog.mod.fieldnames['pointless_t']}
            end = {('a', 1): 1, ('a', 2): 1}
            for k in kinds:
                o = offs.get(k + '_offsets_64')
                if o is None:
                    raise AnalysisBroken('offset table of %s not found in pointless_t' % k)
                t = st.mem.get((('off', ('a', 0), o) if o else ('a', 0), 'ptr'))
                if t is None:
                    self.v('table-unset-' + k, 'opens a file without setting its offset table of %s' % k, eng, st, inst)
                    continue
                e = L.u(t, 64)
                self.n += 1
                n = self.sym('n_' + k, 32)
                if not L.prove(L.add(L.add(end, e, -1), {n: 8}, -1), 6) or not L.prove(L.add(e, {('a', 1): 1, None: hdrsize}, -1)):
                    self.v('table-extent-' + k, 'opens a file whose offset table of %s [%s] may reach beyond its end' % (k, show(e)), eng, st, inst)
            hp = st.mem.get((('off', ('a', 0), offs['heap_ptr']), 'ptr'))
            hl = st.mem.get((('off', ('a', 0), offs['heap_len']), 'i64'))
            if hp is None or hl is None:
                self.v('heap-unset', 'opens a file without setting its heap', eng, st, inst)
            else:
                e, l = L.u(hp, 64), L.u(hl, 64)
                self.n += 1
                if not L.prove(L.add(L.add(end, e, -1), l, -1), 6):
                    self.v('heap-extent', 'opens a file whose heap [%s] with length [%s] may reach beyond its end' % (show(e), show(l)), eng, st, inst)
    c = Init(prog, rep, fn, key)
    c.explore()
    return c.n


def opens(Part, prog, rep, key):
    n = 0
    seen = 0
    statsz = {nm: o // 8 for o, nm, _, sz in prog.mod.fieldnames.get('stat', ())}.get('st_size', 48)
    for fn in prog.mod.defined():
        if fn.name == 'pointless_init' or not any(i.op == 'call' and strip_dot(i.cname() or '') == 'pointless_init' for i in fn.insts()):
            continue
        if fn.linkage in (8, 9):
            continue        # inlined into its callers
        seen += 1

        class Open(Part):
            def call(self, eng, st, inst, args):
                nm = strip_dot(inst.cname() or '')
                if nm in ('pointless_malloc', 'pointless_calloc'):
                    t = self.quiet(eng, st, inst)
                    st.ps = tuple(x for x in st.ps if x[:2] != ('region', t)) + (('region', t, args[0]),)
                    return [(st, t)]
                if nm in ('fopen', 'fileno', 'fclose', 'munmap'):
                    return [(st, self.quiet(eng, st, inst))]
                if nm == 'fstat':
                    eng.default_call(st, inst, args)
                    t = self.sym('st_size', 64)
                    st.facts.pop(t, None)
                    st.mem[(('off', args[1], statsz), 'i64')] = t
                    return [(st, st.env[inst])]
                if nm == 'mmap':
                    t = self.quiet(eng, st, inst)
                    self.n += 1
                    L = self.lin(eng, st)
                    if L.u(args[1], 64) != {('a', 'st_size'): 1}:
                        self.v('map-length', 'maps [%s] bytes, which is not the size of the file' % show(L.u(args[1], 64)), eng, st, inst)
                    if args[5] != K0:
                        self.v('map-offset', 'maps the file from another offset than 0', eng, st, inst)
                    st.ps = st.ps + (('region', t, args[1], 'map'),)
                    return [(st, t)]
                if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove') or nm in ('memcpy', 'memmove'):
                    for x in st.ps:
                        if x[0] == 'region' and base_of(args[0]) == x[1]:
                            L = self.lin(eng, st)
                            self.n += 1
                            if args[0] != x[1] or L.u(args[2], 64) != L.u(x[2], 64):
                                self.v('copy-length', 'copies [%s] bytes into a buffer of [%s]' % (show(L.u(args[2], 64)), show(L.u(x[2], 64))), eng, st, inst)
                            if args[1] == ('a', 1) and L.u(args[2], 64) != {('a', 2): 1}:
                                self.v('copy-source', 'copies [%s] bytes of the buffer that was passed' % show(L.u(args[2], 64)), eng, st, inst)
                    return None
                if nm == 'pointless_init':
                    self.n += 1
                    L = self.lin(eng, st)
                    r = [x for x in st.ps if x[0] == 'region' and x[1] == args[1]]
                    if args[0] != ('a', 0) and self.fn.name.startswith('pointless_open'):
                        self.v('opens-other', 'another file object is set up than the one passed', eng, st, inst)
                    if r:
                        if L.u(args[2], 64) != L.u(r[0][2], 64):
                            self.v('length', 'the buffer is opened with a length [%s] which is not its size [%s]' % (
                                show(L.u(args[2], 64)), show(L.u(r[0][2], 64))), eng, st, inst)
                        if eng.isnull(st, args[1]) is not False:
                            self.v('null', 'the buffer is opened before it was checked for NULL', eng, st, inst) if len(r[0]) < 4 else None
                        if len(r[0]) == 4:
                            b = eng.bounds(st, args[1], 64)
                            if not eng.excludes(b, -1, 64) and not eng.excludes(b, (1 << 64) - 1, 64):
                                self.v('map-failed', 'the mapping is used before it was checked for MAP_FAILED', eng, st, inst)
                    skip = 'skip_validate' in self.fn.name
                    dv = eng.const_of(st, args[3], 32)
                    if not skip and dv != 1 and args[3][0] != 'a' and not eng.excludes(eng.bounds(st, args[3], 32), 0, 32):
                        self.v('unvalidated', 'opens files without validating them', eng, st, inst)
                    return self.fork(eng, st, inst, 'init')
                return None

            def load(self, eng, st, inst, addr):
                pass

            def ret(self, eng, st, inst, val):
                if self.possible(eng, st, val):
                    self.n += 1
                    if ('init', True) not in st.ps:
                        self.v('success', 'reports success without the file having been set up', eng, st, inst)
        c = Open(prog, rep, fn, key)
        c.explore()
        n += c.n
    rep.count('ways to open a file', seen)
    rep.floor('ways to open a file', 2)
    return n


def skips(Part, prog, rep, key):
    """unvalidated opens happen only where the caller turned validation off"""
    n = 0
    for f in prog.mod.defined():
        calls = {i for i in f.insts() if i.op == 'call' and 'skip_validate' in (i.cname() or '') and not (i.cname() or '').startswith('llvm.')}
        if not calls or not f.file.startswith('python/') or f.name in prog.inlined:
            continue
        n += len(calls)

        class C(engine.Client):
            def start(self, eng, st):
                st.ps = ()

            def call(self, eng, st, inst, args):
                nm = inst.cname() or ''
                if nm.startswith(('PyArg_', '_PyArg_')):
                    eng.default_call(st, inst, args)
                    for a in args:
                        if base_of(a)[0] == 'al':
                            t = ('a', 'parsed%d' % a[1]) if a[0] == 'al' else None
                            if t:
                                st.mem[(a, 'ptr')] = t
                    return [(st, st.env[inst])]
                if 'skip_validate' in nm and not nm.startswith('llvm.'):
                    self.hits += 1
                    if ('off',) not in st.ps:
                        rep.bad('skip:%s' % f.name, '%s: a file is opened unvalidated on a path where the caller did not turn validation off (path %s)' % (
                            inst.loc(), eng.trail_str(st)))
                return None

            def after_branch(self, eng, st, cond, truth):
                c = cond
                while c[0] == 'icmp' and c[3] == K0 and c[1] in ('eq', 'ne') and strip(c[2])[0] == 'icmp':
                    truth = truth == (c[1] == 'ne')
                    c = strip(c[2])
                if c[0] == 'icmp' and c[1] in ('eq', 'ne'):
                    eq = (c[1] == 'eq') == truth
                    for x, y in ((c[2], c[3]), (c[3], c[2])):
                        if x[0] == 'a' and isinstance(x[1], str) and x[1].startswith('parsed'):
                            if ('True' in repr(y) and not eq) or ('False' in repr(y) and eq):
                                self.flags(st, x)

            def flags(self, st, x):
                st.ps = (('off',),)
        c = C()
        c.hits = 0
        e = Engine(prog.mod, f, c, None, kmax=20, maxsteps=20000)
        e.run()
        if e.truncated:
            raise AnalysisBroken('%s not fully explored' % f.name)
        n += c.hits
    return n


def validate(Part, prog, rep, key):
    fn = prog.mod.funcs['pointless_validate']
    offs = {n: o // 8 for o, n, _, sz in prog.mod.fieldnames['pointless_validate_state_t']}

    class Val(Part):
        def start(self, eng, st):
            st.ps = ()
            self.types = {('a', 0): 'pointless_validate_context_t'}

        def cell(self, eng, st, inst, b, sn, f, d, w):
            if sn == 'pointless_validate_context_t' and f == 'p':
                t = self.sym('p', 64)
                self.types[t] = 'pointless_t'
                return t
            if sn == 'pointless_t' and f == 'header':
                t = self.sym('header', 64)
                self.types[t] = 'pointless_header_t'
                return t
            if sn == 'pointless_header_t':
                return self.sym(f, w)
            return None

        def state(self, eng, st, base, f, ty):
            o = offs[f]
            return st.mem.get((('off', base, o) if o else base, ty))

        def field(self, sname, off):
            r = super().field(sname, off)
            return r

        def call(self, eng, st, inst, args):
            nm = strip_dot(inst.cname() or '')
            L = self.lin(eng, st)
            if nm in ('pointless_calloc', 'pointless_malloc'):
                eng.default_call(st, inst, args)
                t = st.env[inst]
                size = L.u(args[0], 64)
                if nm == 'pointless_calloc' and args[1][0] == 'k':
                    size = {x: c * args[1][1] for x, c in size.items()}
                st.ps = st.ps + (('mem', t, args[0], args[1] if nm == 'pointless_calloc' else ('k', 1), 'clean' if nm == 'pointless_calloc' else 'dirty'),)
                return [(st, t)]
            if nm.startswith('llvm.memset') or nm == 'memset':
                for x in st.ps:
                    if x[0] == 'mem' and x[1] == args[0]:
                        sz = {y: c * x[3][1] for y, c in L.u(x[2], 64).items()} if x[3][0] == 'k' else None
                        n = L.u(args[2], 64)
                        self.n += 1
                        if sz is not None and self.kind(eng, st, x) is not None:
                            if not self.bits(eng, st, n, self.kind(eng, st, x)):
                                st.ps = tuple(y for y in st.ps if y is not x) + (x[:4] + ('part',),)
                                return None
                        if args[1] == K0:
                            st.ps = tuple(y for y in st.ps if y is not x) + (x[:4] + ('clean',),)
                return None
            if nm == 'pointless_cycle_marker_read':
                mine = {k: t for k, t in st.mem.items() if base_of(k[0])[0] == 'al' and (len(args) < 2 or base_of(k[0]) != base_of(args[1]) or k[0] != args[1])}
                eng.default_call(st, inst, args)
                st.mem.update(mine)     # it is not given the state
                t = st.env[inst]
                passes = [x for x in st.ps if x[0] == 'pass']
                if args[0] != ('a', 'p'):
                    self.v('marks-other', 'cycles of another file are marked', eng, st, inst)
                if not passes or not self.errfree(eng, st, passes[-1]):
                    self.v('mark-early', 'cycles are marked before the references of the file were checked', eng, st, inst)
                st.ps = st.ps + (('marker', t),)
                return [(st, t)]
            if nm == 'pointless_walk':
                return self.walk(eng, st, inst, args)
            return None

        def errfree(self, eng, st, p):
            return eng.isnull(st, p[2]) is True

        def kind(self, eng, st, x):
            """which bitmap of the state this block of memory is"""
            for f in ('vector', 'set', 'map'):
                for (a, ty), t in st.mem.items():
                    if t == x[1] and a[0] == 'off' and a[2] == offs[f] and a[1][0] == 'al':
                        return f
            return None

        def bits(self, eng, st, n, k):
            """n bytes hold a bit for each of n_k"""
            L = self.lin(eng, st)
            L.facts()
            e = {x: c * 8 for x, c in n.items()}
            nk = self.sym('n_' + k, 32)
            # re-express byte counts of the form n/8 (+1)
            for x in list(n):
                if x is not None and x[0] == 'q':
                    L.quot({nk: 1}, x[2])
            return L.prove(L.add(e, {nk: 1}, -1), 5)

        def walk(self, eng, st, inst, args):
            self.n += 1
            base = args[2]
            L = self.lin(eng, st)
            if args[0] != ('a', 'p'):
                self.v('walks-other', 'another file is walked', eng, st, inst)
            npass = self.state(eng, st, base, 'pass', 'i32')
            want = 1 + sum(1 for x in st.ps if x[0] == 'pass')
            np = eng.const_of(st, npass, 32) if npass is not None else None
            if np is not None and np not in (1, 2, 3):
                self.v('pass', 'pass %s does not exist' % np, eng, st, inst)
            done = [x[1] for x in st.ps if x[0] == 'pass']
            if np != 1 and 1 not in done:
                self.v('pass-order', 'pass %s runs before pass 1 checked the references' % np, eng, st, inst)
            for x in st.ps:
                if x[0] == 'pass' and not self.errfree(eng, st, x):
                    self.v('pass-error', 'pass %s runs although pass %s may have failed' % (np, x[1]), eng, st, inst)
            for f in ('vector', 'set', 'map'):
                t = self.state(eng, st, base, f, 'ptr')
                m = [x for x in st.ps if x[0] == 'mem' and x[1] == t]
                if eng.isnull(st, t) is not False if t is not None else True:
                    self.v('bitmap-null-' + f, 'the bitmap of %ss may be NULL' % f, eng, st, inst)
                if m:
                    n = {y: c * m[0][3][1] for y, c in L.u(m[0][2], 64).items()} if m[0][3][0] == 'k' else None
                    if n is not None and not self.bits(eng, st, n, f):
                        self.v('bitmap-size-' + f, 'the bitmap of %ss has [%s] bytes, too few for n_%s bits' % (f, show(n), f), eng, st, inst)
                    if m[0][4] != 'clean':
                        self.v('bitmap-stale-' + f, 'the bitmap of visited %ss is not reset before pass %s, which then skips them' % (f, np), eng, st, inst)
            if np == 2:
                t = self.state(eng, st, base, 'cycle_marker', 'ptr')
                if t is None or ('marker', t) not in st.ps or eng.isnull(st, t) is not False:
                    self.v('marker', 'pass 2 runs without the marks of the cycles', eng, st, inst)
            eo = offs['error']
            cur = self.state(eng, st, base, 'error', 'ptr')
            keep = {f: self.state(eng, st, base, f, 'ptr') for f in ('vector', 'set', 'map', 'cycle_marker', 'context')}
            keepp = npass
            eng.default_call(st, inst, args)
            for f, t in keep.items():
                if t is not None:
                    st.mem[(('off', base, offs[f]) if offs[f] else base, 'ptr')] = t
            if keepp is not None:
                st.mem[(('off', base, offs['pass']) if offs['pass'] else base, 'i32')] = keepp
            t = ('c', 'error', len(st.ps))
            st.facts.pop(t, None)
            if want == 1 and cur is not None and not eng.isnull(st, cur):
                pass
            st.mem[(('off', base, eo) if eo else base, 'ptr')] = t
            st.ps = tuple(x[:4] + ('dirty',) if x[0] == 'mem' else x for x in st.ps) + (('pass', np, t),)
            return [(st, None)]

        def ret(self, eng, st, inst, val):
            if not self.possible(eng, st, val):
                return
            self.n += 1
            done = [x for x in st.ps if x[0] == 'pass']
            for k in (1, 2, 3):
                if not any(x[1] == k for x in done):
                    self.v('pass-missing', 'a file is accepted without pass %d' % k, eng, st, inst)
            for x in done:
                if not self.errfree(eng, st, x):
                    self.v('pass-ignored', 'a file is accepted although pass %s may have failed' % x[1], eng, st, inst)
    c = Val(prog, rep, fn, key)
    c.explore()
    return c.n


def walk(Part, prog, rep, key, todo, CONTAINER, KIND):
    fn = prog.mod.funcs.get('pointless_walk_priv')
    if fn is None:
        raise AnalysisBroken('pointless_walk_priv not found')
    total = 0
    for tag, val in todo:
        class Walk(Part, Forall):
            each = ('child',)

            def start(self, eng, st):
                st.ps = ()
                self.types = {('a', 0): 'pointless_t', ('a', 1): 'pointless_value_t'}

            def v(self, what, msg, eng=None, st=None, inst=None):
                super().v(what + ':' + tag, 'values of type %s: %s' % (tag, msg), eng, st, inst)

            def edge(self, eng, st, src, dst):
                Forall.edge(self, eng, st, src, dst)

            def cell(self, eng, st, inst, b, sn, f, d, w):
                if sn == 'pointless_value_t':
                    if f == 'type':
                        return ('k', val)
                    return self.sym('v.data', w)
                return self.sym(f, w)

            def table(self, eng, st, inst, tab, rest, w):
                idx = {t: c // 8 for t, c in rest.items()}
                return self.sym('%s[%s]' % (tab, show(idx)), w)

            def bound(self, eng, st, name):
                off = ('a', 'vector_offsets_64[v.data]')
                return {self.sym('heap[%s]:i32' % off[1], 32): 1}

            def call(self, eng, st, inst, args):
                nm = inst.cname()
                if nm is None and inst.callee.kind != 'func' and eng.ev(st, inst.callee) == ('a', 3):
                    self.n += 1
                    if args[1] != ('a', 1) or args[0] != ('a', 0) or args[2] != ('a', 2) or args[3] != ('a', 5):
                        self.v('callback', 'the callback is not given the value, its depth and the state', eng, st, inst)
                    out = []
                    for c in (key['VISIT_CHILDREN'], key['MOVE_UP'], key['STOP']):
                        s = st.copy()
                        s.env[inst] = ('k', c)
                        s.ps = s.ps + (('action', c),)
                        if not any(x[0] == 'stopped' for x in s.ps):
                            s.mem[(('a', 4), 'i32')] = K0
                        out.append((s, ('k', c)))
                    return out
                if nm == fn.name:
                    self.n += 1
                    if tag not in CONTAINER:
                        self.v('no-container', 'a value that has no children is walked like a container', eng, st, inst)
                        return None
                    if ('action', key['VISIT_CHILDREN']) not in st.ps:
                        self.v('order', 'children are visited before the value was validated', eng, st, inst)
                    if any(x[0] == 'stopped' for x in st.ps) or ('action', key['STOP']) in st.ps:
                        self.v('after-stop', 'the walk goes on after it was stopped', eng, st, inst)
                    L = self.lin(eng, st)
                    d = L.add(L.u(args[2], 32), {('a', 2): 1}, -1)
                    if set(d) <= {None} and d.get(None, 0) < 1:
                        self.v('depth', 'children are visited without counting the depth', eng, st, inst)
                    if args[0] != ('a', 0) or args[3] != ('a', 3) or args[4] != ('a', 4) or args[5] != ('a', 5):
                        self.v('recursion', 'children are not visited with the same callback and state', eng, st, inst)
                    self.child(eng, st, inst, args[1], L)
                    out = []
                    for stop in (0, 1):
                        s = st.copy()
                        s.mem[(('a', 4), 'i32')] = ('k', stop)
                        if stop:
                            s.ps = s.ps + (('stopped',),)
                        out.append((s, None))
                    return out
                return None

            def child(self, eng, st, inst, t, L):
                e = L.u(t, 64)
                if tag in ('VECTOR_VALUE', 'VECTOR_VALUE_HASHABLE'):
                    b = {('a', 'heap_ptr'): 1, ('a', 'vector_offsets_64[v.data]'): 1, None: 4}
                    r = L.add(e, b, -1)
                    if len(r) == 1 and list(r.values()) == [8] and None not in r:
                        self.event(eng, st, inst, 'child', list(r)[0])
                        self.within(eng, st, inst, list(r)[0], self.bound(eng, st, 'child'), 'an item behind the last is visited')
                    elif set(r) <= {None} and r.get(None, 0) % 8 == 0 and t[0] != 'phi':
                        self.event(eng, st, inst, 'child', ('k', r.get(None, 0) // 8))
                    else:
                        self.shape.setdefault('child', set()).add('other')
                    return
                st.ps = tuple(sorted(set(st.ps) | {('child', e.get(None, 0), len(e))}, key=repr))

            def ret(self, eng, st, inst, val_):
                self.n += 1
                act = [x[1] for x in st.ps if x[0] == 'action']
                if not act:
                    self.v('unvisited', 'a value is passed over', eng, st, inst)
                    return
                stopped = any(x[0] == 'stopped' for x in st.ps)
                if act[0] == key['STOP'] or stopped:
                    t = st.mem.get((('a', 4), 'i32'))
                    if t is not None and eng.isnull(st, t) is True:
                        self.v('stop-lost', 'a stop is not passed on to the caller', eng, st, inst)
                    return
                if act[0] == key['MOVE_UP'] or tag not in CONTAINER:
                    return
                if tag.startswith('VECTOR'):
                    if self.covered(eng, st, 'child') is False:
                        self.v('children', 'not all items of a vector are visited', eng, st, inst)
                    return
                off = '%s_offsets_64[v.data]' % KIND[tag]
                need = (8, 16) + ((24,) if tag == 'MAP_VALUE_VALUE' else ())
                got = {x[1] for x in st.ps if x[0] == 'child' and x[2] == 3}
                for o in need:
                    if o not in got:
                        self.v('children-%d' % o, 'the %s vector is not visited' % {8: 'hash', 16: 'key', 24: 'value'}[o], eng, st, inst)
        c = Walk(prog, rep, fn, key)
        c.explore()
        total += c.n
    # the start of the walk
    f2 = prog.mod.funcs['pointless_walk']

    class Start(Part):
        def start(self, eng, st):
            st.ps = ()
            self.types = {('a', 0): 'pointless_t'}

        def cell(self, eng, st, inst, b, sn, f, d, w):
            return self.sym(f, w) if sn == 'pointless_t' else None

        def call(self, eng, st, inst, args):
            if inst.cname() == fn.name:
                self.n += 1
                st.ps = (('walked',),)
                if self.lin(eng, st).u(args[1], 64) != {('a', 'header'): 1}:
                    self.v('root', 'the walk does not start at the root', eng, st, inst)
                if args[2] != K0:
                    self.v('depth0', 'the walk does not start at depth 0', eng, st, inst)
                if args[3] != ('a', 1) or args[5] != ('a', 2):
                    self.v('cb', 'the walk runs another callback or state', eng, st, inst)
                t = st.mem.get((args[4], 'i32'))
                if t is not None and t != K0:
                    self.v('stop0', 'the walk starts stopped', eng, st, inst)
            return None

        def ret(self, eng, st, inst, val):
            if not st.ps:
                self.v('nowalk', 'nothing is walked', eng, st, inst)
    c = Start(prog, rep, f2, key)
    c.explore()
    return total + c.n


def table(Part, prog, rep, key):
    fn = prog.mod.funcs.get('pointless_hash_table_validate')
    if fn is None:
        raise AnalysisBroken('pointless_hash_table_validate not found')
    EMPTY = key['EMPTY_SLOT']

    class Table(Part, Forall):
        each = ('hashable', 'hash', 'probe', 'value')

        def start(self, eng, st):
            st.ps = ()

        def bound(self, eng, st, name):
            self.aw[('a', 2)] = 32
            return {('a', 2): 1}

        def idx(self, eng, st, addr, stride):
            """(array parameter, index term, offset) of an address"""
            L = self.lin(eng, st)
            e = L.u(addr, 64)
            arr = [t for t in e if t in (('a', 3), ('a', 4), ('a', 5))]
            if len(arr) != 1 or e[arr[0]] != 1:
                return None
            rest = {t: c for t, c in e.items() if t not in (arr[0], None)}
            if not rest:
                o = e.get(None, 0)
                return arr[0][1], ('k', o // stride), o % stride
            if len(rest) == 1 and list(rest.values()) == [stride] and e.get(None, 0) in range(0, stride):
                return arr[0][1], strip(list(rest)[0]), e.get(None, 0)
            return arr[0][1], None, 0

        def load(self, eng, st, inst, addr):
            b = base_of(addr)
            if b not in (('a', 3), ('a', 4), ('a', 5)):
                return
            a, i, o = self.idx(eng, st, addr, 4 if b == ('a', 3) else 8) or (None, None, 0)
            if i is None or not any(st.env.get(c) is not None and strip(st.env[c]) == i for cs in self.counters.values() for c, _ in cs):
                for n in self.each:
                    self.shape.setdefault(n, set()).add('other')
            if a is None or i is None:
                return
            self.n += 1
            self.within(eng, st, inst, i, {('a', 2): 1}, 'a bucket behind the last is read')
            nm = {(3, 0): 'hash', (4, 0): 'ktype', (5, 0): 'vtype'}.get((a, o))
            if nm is not None:
                t = ('c', nm, i)
                self.aw[t] = 32
                st.mem[(addr, inst.ty)] = t

        def call(self, eng, st, inst, args):
            nm = strip_dot(inst.cname() or '')
            if nm == 'pointless_is_hashable':
                out = self.fork(eng, st, inst, 'is')
                s = out[0][0]
                s.ps = tuple(x for x in s.ps if x[0] != 'is')
                out[1][0].ps = tuple(x for x in out[1][0].ps if x[0] != 'is')
                if args[0][:2] == ('c', 'ktype'):
                    self.event(eng, s, inst, 'hashable', args[0][2])
                else:
                    self.shape.setdefault('hashable', set()).add('other')
                return out
            if nm == 'pointless_hash_reader_32':
                r = self.idx(eng, st, args[1], 8)
                t = ('c', 'khash', r[1]) if r and r[0] == 4 and r[1] is not None else eng.fresh(st, inst)
                if not any(x[0] == 'it' and x[1] == 'hashable' for x in st.ps) and r and self.shape.get('hashable') and 'other' not in self.shape['hashable']:
                    self.v('hash-unchecked', 'a key is hashed before it was checked to be hashable', eng, st, inst)
                self.aw[t] = 32
                st.env[inst] = t
                st.facts.pop(t, None)
                return [(st, t)]
            if nm == 'pointless_hash_table_probe':
                r = self.idx(eng, st, args[2], 8)
                if args[3] != ('a', 2) or args[4] != ('a', 3) or args[5] != ('a', 4):
                    self.v('probe-args', 'keys are probed in another table', eng, st, inst)
                if r and r[1] is not None:
                    h = args[1]
                    if h not in (('c', 'hash', r[1]), ('c', 'khash', r[1])):
                        self.v('probe-hash', 'a key is probed with the hash of another', eng, st, inst)
                    t = ('c', 'probe', r[1])
                    self.aw[t] = 32
                    eng.default_call(st, inst, args)
                    st.env[inst] = t
                    st.facts.pop(t, None)
                    return [(st, t)]
                self.shape.setdefault('probe', set()).add('other')
                return None
            if nm == 'pointless_hash_compute_n_buckets':
                t = ('c', 'nb', args[0])
                self.aw[t] = 32
                st.env[inst] = t
                return [(st, t)]
            return None

        def after_branch(self, eng, st, cond, truth):
            br = eng.brinst
            if cond[0] == 'icmp' and cond[1] in ('eq', 'ne') and (cond[1] == 'eq') == truth:
                a, b = strip(cond[2]), strip(cond[3])
                for x, y in ((a, b), (b, a)):
                    if x == ('c', 'nb', ('a', 1)) and y == ('a', 2):
                        st.ps = tuple(sorted(set(st.ps) | {('buckets',)}, key=repr))
                    elif x == ('a', 1):
                        st.ps = tuple(sorted(set(st.ps) | {('count',)}, key=repr))
                    if x[:2] == ('c', 'khash') and y == ('c', 'hash', x[2]):
                        self.event(eng, st, br, 'hash', x[2])
                    if x[:2] == ('c', 'probe') and y == x[2]:
                        self.event(eng, st, br, 'probe', x[2])
            for h, body in eng.loops.items():
                if br.bb not in body:
                    continue
                for i, start in self.counters.get(h, ()):
                    t = st.env.get(i)
                    if t is None:
                        continue
                    t = strip(t)
                    k, v = ('c', 'ktype', t), ('c', 'vtype', t)
                    if eng.const_of(st, k, 32) == EMPTY:
                        self.event(eng, st, br, 'probe', t)
                    if eng.isnull(st, ('a', 5)) or eng.const_of(st, v, 32) == EMPTY or eng.excludes(eng.bounds(st, k, 32), EMPTY, 32):
                        self.event(eng, st, br, 'value', t)

        def edge(self, eng, st, src, dst):
            Forall.edge(self, eng, st, src, dst)

        def ret(self, eng, st, inst, val):
            if not self.possible(eng, st, val):
                return
            self.n += 1
            L = self.lin(eng, st)
            for w, m in (('hashable', 'being hashable'), ('hash', 'its stored hash being the hash of the key'),
                         ('probe', 'a lookup of it finding its own slot'), ('value', 'the value slot being empty where the key slot is')):
                if self.covered(eng, st, w) is False:
                    self.v('slots-' + w, 'a hash table is accepted without each slot having been checked for ' + m, eng, st, inst)
            if ('buckets',) not in st.ps:
                self.v('buckets', 'a hash table is accepted without its number of buckets having been checked', eng, st, inst)
            if ('count',) not in st.ps:
                self.v('count', 'a hash table is accepted without its item count having been checked against the used slots', eng, st, inst)
    c = Table(prog, rep, fn, key)
    c.explore()
    return c.n


def cycles(Part, prog, rep, key, CONTAINER, VEC, INLINE, KIND):
    """the graph handed to the cycle marker is the graph of the file"""
    fn = prog.orig.funcs.get('pointless_cycle_marker_read')
    if fn is None:
        raise AnalysisBroken('pointless_cycle_marker_read not found')
    offs = {o // 8: n for o, n, _, sz in prog.mod.fieldnames['cycle_marker_info_t']}
    fns = {}

    class Get(engine.Client):
        def store(self, eng, st, inst, addr, val):
            if val[0] == 'f':
                o = addr[2] if addr[0] == 'off' else 0
                if o in offs:
                    fns[offs[o]] = val[1]
    e = Engine(prog.mod, prog.mod.funcs['pointless_cycle_marker_read'], Get(), None)
    e.run()
    for n in ('fn_n_nodes', 'fn_get_root', 'fn_is_container', 'fn_container_id', 'fn_n_children', 'fn_child_at'):
        if n not in fns:
            raise AnalysisBroken('callback %s of the cycle marker not found' % n)
    total = [0]

    def explore(name, tag, child=None):
        res = []

        class Cb(Part):
            def start(self, eng, st):
                st.ps = ()
                self.types = {('a', 'p'): 'pointless_t', **({('a', 0): 'pointless_t'} if name.startswith('pointless') else {}), ('a', 1): 'pointless_value_t', ('a', 'header'): 'pointless_header_t'}

            def cell(self, eng, st, inst, b, sn, f, d, w):
                if sn == 'pointless_value_t' and b == ('a', 1):
                    return ('k', key[tag]) if f == 'type' else self.sym('v.data', w)
                return self.sym(f, w)

            def load(self, eng, st, inst, addr):
                if addr == ('a', 0) and inst.ty == 'ptr' and not name.startswith('pointless'):
                    st.mem[(addr, 'ptr')] = ('a', 'p')
                    return
                super().load(eng, st, inst, addr)

            def table(self, eng, st, inst, tab, rest, w):
                idx = {t: c // 8 for t, c in rest.items()}
                return self.sym('%s[%s]' % (tab, show(idx)), w)

            def call(self, eng, st, inst, args):
                nm = strip_dot(inst.cname() or '')
                if nm in ('pointless_container_id', 'pointless_n_containers'):
                    if (nm == 'pointless_n_containers' and args != [('a', 'p')]) or (nm != 'pointless_n_containers' and args != [('a', 'p'), ('a', 1)]):
                        bad(self.fn, 'args', tag, 'the cycle marker is given a number of something else')
                    t = self.sym(nm, 32)
                    st.env[inst] = t
                    return [(st, t)]
                return None

            def starts(self, eng, st):
                if child is not None:
                    eng.refine(st, ('icmp', 'eq', ('a', 2), ('k', child), 32), True)
                return [st]

            def ret(self, eng, st, inst, val):
                total[0] += 1
                L = self.lin(eng, st)
                L.nowrap = (32, 64)
                w = engine.width(inst.ops[0].ty)
                for r in st.facts:
                    if r[0] in ('gep', 'off') and eng.isnull(st, r) is True and base_of(r) == ('a', 'heap_ptr'):
                        return      # nothing in the heap lies at address 0
                res.append((L.u(val, w), L, eng, st, inst))
        f = prog.mod.funcs[fns.get(name, name)]
        c = Cb(prog, rep, f, key)
        c.explore()
        if not res:
            raise AnalysisBroken('%s does not return for %s' % (f.name, tag))
        return f, res

    def bad(f, what, tag, msg):
        rep.bad('cycle-%s:%s:%s' % (what, f.name, tag), '%s: values of type %s: %s' % (f.name, tag, msg))
    for tag in list(KIND) + list(INLINE):
        f, res = explore('fn_is_container', tag)
        for e, L, eng, st, inst in res:
            if tag in CONTAINER and not L.prove(L.add(e, {None: -1})):
                bad(f, 'container', tag, 'not treated as a container when cycles are looked for')
            if tag not in CONTAINER and tag not in VEC and set(e) - {None}:
                pass
    ids = {}
    for tag in CONTAINER:
        k = KIND[tag]
        off = ('a', '%s_offsets_64[v.data]' % k)
        f, res = explore('fn_n_children', tag)
        want = {('a', 'heap[%s]:i32' % off[1]): 1} if k == 'vector' else {None: 2 if k == 'set' else 3}
        for e, L, eng, st, inst in res:
            if not (L.prove(L.add(e, want, -1)) and L.prove(L.add(want, e, -1))):
                bad(f, 'count', tag, 'the cycle marker sees %s children instead of %s' % (show(e), show(want)))
        heap = {('a', 'heap_ptr'): 1, off: 1}
        cases = [(None, None)] if k == 'vector' else [(i, i) for i in range(2 if k == 'set' else 3)]
        got = set()
        for c, _ in cases:
            f, res = explore('fn_child_at', tag, c)
            for e, L, eng, st, inst in res:
                if k == 'vector':
                    w = L.add(dict(heap), {None: 4})
                    w[('a', 2)] = 8
                    if e != w:
                        bad(f, 'child', tag, 'the cycle marker is given [%s] as child i of a vector' % show(e))
                else:
                    d = L.add(e, heap, -1)
                    got.add(d.get(None) if set(d) <= {None} else show(e))
        if k != 'vector' and got != {8, 16} | ({24} if k == 'map' else set()):
            bad(f, 'child', tag, 'the cycle marker is not given each of its vectors as a child: %s' % sorted(map(str, got)))
        f, res = explore('fn_container_id', tag)
        if any(e == {('a', 'pointless_container_id'): 1} for e, *_ in res):
            f, res = explore('pointless_container_id', tag)
        for e, L, eng, st, inst in res:
            ids.setdefault(tag, []).append((e, L))
    f, res = explore('fn_n_nodes', 'VECTOR_VALUE')
    if any(e == {('a', 'pointless_n_containers'): 1} for e, *_ in res):
        f, res = explore('pointless_n_containers', 'VECTOR_VALUE')
    nn = [e for e, L, eng, st, inst in res]
    base = {}
    for tag, es in ids.items():
        k = KIND[tag]
        for e, L in es:
            if e.get(('a', 'v.data')) != 1:
                bad(f, 'id', tag, 'its number for the cycle marker [%s] does not single it out' % show(e))
                continue
            b = {t: c for t, c in e.items() if t != ('a', 'v.data')}
            nk = ('a', 'n_' + k)
            for n in nn:
                # n_nodes - 1 - (b + n_k - 1) >= 0
                if not L.prove(L.add(L.add(n, b, -1), {nk: 1}, -1)):
                    bad(f, 'id-bound', tag, 'its number for the cycle marker [%s] may exceed the number of containers [%s]' % (show(e), show(n)))
            base.setdefault(k, []).append((b, L, tag))
    ks = sorted(base)
    for x in range(len(ks)):
        for y in range(x + 1, len(ks)):
            for b1, L, t1 in base[ks[x]]:
                for b2, _, t2 in base[ks[y]]:
                    n1, n2 = {('a', 'n_' + ks[x]): 1}, {('a', 'n_' + ks[y]): 1}
                    if not (L.prove(L.add(L.add(b2, b1, -1), n1, -1)) or L.prove(L.add(L.add(b1, b2, -1), n2, -1))):
                        bad(f, 'id-overlap', t1, 'it may share its number with a %s' % ks[y])
    if len({show(b) for b, _, _ in base.get('vector', ())}) > 1:
        bad(f, 'id-vector', 'VECTOR_VALUE', 'a vector has two numbers')
    rep.count('cycle marker callbacks', len(fns))
    return total[0]


def bitmaps(Part, prog, rep, key):
    """bit i lives in byte i / 8"""
    n = 0
    for name in ('bm_set_', 'bm_is_set_', 'bm_reset_'):
        fn = prog.mod.funcs.get(name)
        if fn is None:
            continue

        class Bm(Part):
            def at(self, eng, st, inst, addr):
                L = self.lin(eng, st)
                e = L.u(addr, 64)
                r = {t: c for t, c in e.items() if t != ('a', 0)}
                self.n += 1
                if e.get(('a', 0)) != 1 or r != L.quot({('a', 1): 1}, 8):
                    self.v('byte', 'bit i is kept in byte [%s]' % show(r), eng, st, inst)

            def load(self, eng, st, inst, addr):
                self.at(eng, st, inst, addr)

            def store(self, eng, st, inst, addr, val):
                self.at(eng, st, inst, addr)
        c = Bm(prog, rep, fn, key)
        c.explore()
        n += c.n
    return n
