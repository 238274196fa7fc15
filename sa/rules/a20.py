"""A20: a file stays open as long as anything that was read from it exists, and is not used before it is opened.

The methods of the file object are explored path by path: the data of the file is used only where is_open is known to be set, is_open is set
only where opening succeeded, the file is closed outside of its destructor only where no value refers to it and after it was marked closed.
Every kind of value counts itself in the file object together with the reference it takes, and is counted off in its destructor together with
the release of that reference, on the same counter."""
import engine
from common import Program, AnalysisBroken, strip_dot
from tags import Paths
from rules import a11

NULLS = ((('k', 0), 0), (('c', 'null'), 0), (('c', 'undef'), 0), (('c', 'zero'), 0))
OPEN, CLOSE = 'pointless_open', 'pointless_close'


class Null:
    def __getattr__(self, k):
        return lambda *a, **k: None


def name(i):
    return strip_dot(i.cname() or '') if i.op == 'call' else ''


class A:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.mod = rep, prog, prog.mod
        fs = self.mod.fieldnames.get('PyPointless')
        if not fs:
            raise AnalysisBroken('struct PyPointless not found')
        self.off = {n: o // 8 for o, n, _, _ in fs}
        self.fld = {o: n for n, o in self.off.items()}
        for n in ('is_open', 'p'):
            if n not in self.off:
                raise AnalysisBroken('field %s of PyPointless not found' % n)
        self.paths = {f: Paths(self.mod, f) for f in self.mod.defined()}
        self.a11 = a11.A(Null(), prog, '')
        self.a11.summaries()
        self.a11.user_code()
        self.types = {}
        self.dealloc = None
        for g, tn, slots, methods, _ in prog.py_types():
            self.types[g] = (slots, methods)
        slots, methods = self.types.get('PyPointlessType', ({}, []))
        self.slots = {}
        for s, f in slots.items():
            self.slots[f] = s
        for m, f in methods:
            self.slots[f] = m
        self.dealloc = slots.get('tp_dealloc')
        self.counters = set()
        self.uses = {}
        for f in self.mod.defined():
            for i in f.insts():
                c = self.change(f, i)
                if c:
                    self.counters.add(c[1])

    def field(self, f, a):
        """(object, field) of an address inside a PyPointless"""
        p = self.paths[f].of(a)
        if isinstance(p[0], tuple) and p[0][0] == 'as' and p[0][2] == 'PyPointless':
            o = p[1]
            n = self.fld.get(o)
            if o >= self.off['p']:
                n = 'p'
            return p[0][1], n
        return None

    def change(self, f, i):
        """(object, counter, +1/-1): the instruction counts a value on or off"""
        if i.op != 'store' or i.ops[0].kind != 'inst' or i.ops[0].op not in ('add', 'sub'):
            return None
        w = self.field(f, i.ops[1])
        v = i.ops[0]
        if not w or not str(w[1]).endswith('_refs'):
            return None
        k = [o.n for o in v.ops if o.kind == 'int']
        ld = [o for o in v.ops if o.kind == 'inst' and o.op == 'load' and self.field(f, o.ops[0]) == w]
        if len(k) != 1 or len(ld) != 1:
            return None
        n = (k[0] & ((1 << 64) - 1)) - (1 << 64 if k[0] & (1 << 63) else 0)
        return w[0], w[1], n if v.op == 'add' else -n

    def uses_p(self, f, k, seen=()):
        """does f use the file of its k-th parameter"""
        key = (f, k)
        if key in self.uses:
            return self.uses[key]
        self.uses[key] = False
        r = False
        if not f.decl:
            for i in f.insts():
                if i.op in ('load', 'store'):
                    w = self.field(f, i.ops[-1])
                    r = r or bool(w) and w[0] == ('a', k) and w[1] == 'p'
                elif i.op == 'call':
                    for j, o in enumerate(i.ops):
                        w = self.field(f, o)
                        r = r or bool(w) and w[0] == ('a', k) and w[1] == 'p'
                        if self.paths[f].of(o) == (('a', k), 0) and i.callee.kind == 'func':
                            r = r or self.uses_p(i.callee, j)
        self.uses[key] = r
        return r


class C(engine.Client):
    """ps: set of ('nz'|'z', field), ('call', open), ('opened',), ('closed',), ('cut', load before a change)"""

    def __init__(self, an, f):
        self.an, self.f = an, f
        self.obj = ('a', 0)
        self.n = 0
        self.found = {}

    def start(self, eng, st):
        st.ps = frozenset()

    def psterms(self, ps):
        return [('i', x[1]) for x in ps if x[0] == 'call']

    def v(self, kind, eng, st, inst, msg):
        self.found.setdefault('%s:%s' % (kind, self.f.name), '%s in %s: %s (path %s)' % (inst.loc(), self.f.name, msg, eng.trail_str(st)))

    def mine(self, a):
        w = self.an.field(self.f, a)
        return w[1] if w and w[0] == self.obj else None

    def load(self, eng, st, inst, addr):
        w = self.mine(inst.ops[0])
        if w is None:
            return
        if w == 'p':
            self.use(eng, st, inst)

    def is_set(self, st):
        return ('nz', 'is_open') in st.ps

    def use(self, eng, st, inst):
        self.n += 1
        if not self.is_set(st):
            self.v('closed', eng, st, inst, 'the file is used although it may not be open')

    def after_branch(self, eng, st, cond, truth):
        new = set(st.ps)
        for (w, inst) in self.loads():
            t = st.env.get(inst)
            if t is None:
                continue
            if ('cut', inst.idx) in st.ps:
                continue
            if eng.const_of(st, t, 64) == 0:
                new.add(('z', w))
            elif eng.excludes(eng.bounds(st, t, 32 if w == 'is_open' else 64), 0, 32):
                new.add(('nz', w))
        for i in self.results():
            t = ('i', i.idx)
            if ('call', i.idx) in st.ps and eng.excludes(eng.bounds(st, t, 32), 0, 32):
                new.add(('opened',))
        st.ps = frozenset(new)

    def loads(self):
        if not hasattr(self, '_l'):
            self._l = [(self.mine(i.ops[0]), i) for i in self.f.insts() if i.op == 'load' and (self.mine(i.ops[0]) == 'is_open' or self.mine(i.ops[0]) in self.an.counters)]
        return self._l

    def results(self):
        if not hasattr(self, '_r'):
            self._r = [i for i in self.f.insts() if i.op == 'call' and name(i).startswith(OPEN)]
        return self._r

    def forget(self, st, what):
        st.ps = frozenset(x for x in st.ps if not (x[0] in ('z', 'nz') and x[1] in what)) | {
            ('cut', i.idx) for w, i in self.loads() if w in what and i in st.env}

    def store(self, eng, st, inst, addr, val):
        w = self.mine(inst.ops[1])
        if w == 'is_open':
            self.n += 1
            self.forget(st, ('is_open',))
            c = eng.const_of(st, val, 32)
            if c == 0:
                st.ps |= {('z', 'is_open')}
            else:
                if ('opened',) not in st.ps:
                    self.v('opened', eng, st, inst, 'the file is marked open although opening it may have failed')
                st.ps |= {('nz', 'is_open')}
        elif w in self.an.counters and self.f is not self.an.dealloc and not self.fresh():
            self.v('counter', eng, st, inst, 'the counter of values is changed although values may exist') if self.an.change(self.f, inst) is None else None

    def fresh(self):
        return self.an.slots.get(self.f) == 'tp_new'

    def call(self, eng, st, inst, args):
        n = name(inst)
        an = self.an
        if n == CLOSE and inst.ops and self.mine(inst.ops[0]) == 'p':
            self.n += 1
            if self.f is an.dealloc:
                if not self.is_set(st):
                    self.v('close', eng, st, inst, 'the file is closed although it may not be open')
            else:
                live = [c for c in sorted(an.counters) if ('z', c) not in st.ps]
                if live:
                    self.v('live', eng, st, inst, 'the file is closed although values counted in %s may refer to it' % ', '.join(live))
                if ('z', 'is_open') not in st.ps:
                    self.v('marked', eng, st, inst, 'the file is closed while it is still marked open')
            st.ps |= {('closed',)}
        elif n.startswith(OPEN) and inst.ops and self.mine(inst.ops[0]) == 'p':
            self.n += 1
            if self.is_set(st) or ('z', 'is_open') not in st.ps and ('closed',) not in st.ps:
                self.v('reopen', eng, st, inst, 'a file is opened although one may already be open')
            st.ps |= {('call', inst.idx)}
        elif inst.callee.kind == 'func' and an.prog.is_project(inst.callee):
            for j, o in enumerate(inst.ops):
                if self.mine(o) == 'p' or an.paths[self.f].of(o) == (self.obj, 0) and an.uses_p(inst.callee, j):
                    self.use(eng, st, inst)
        if not n.startswith('llvm.') and an.a11.runs_user(inst) and self.f is not an.dealloc:
            # no values appear of a file that is marked closed
            if ('z', 'is_open') not in st.ps:
                self.forget(st, ('is_open',) + tuple(an.counters))
        return None


def value(an, P, i):
    """the type of value that the instruction makes refer to a file"""
    if i.op == 'store' and i.ops[0].ty == 'ptr':
        p = P.of(i.ops[1])
        if isinstance(p[0], tuple) and p[0][0] == 'as' and an.mod.fieldnames.get(p[0][2]) and \
                {o // 8: x for o, x, _, _ in an.mod.fieldnames[p[0][2]]}.get(p[1]) == 'pp' and P.of(i.ops[0]) not in NULLS:
            return p[0][2]
    return None


def pairs(rep, an):
    """values count themselves with the reference they take"""
    mod = an.mod
    per = {}            # value type -> {'on': {counters}, 'off': {counters}}
    n = 0
    guards = {}
    for f in mod.defined():
        if f.name in an.prog.inlined:
            continue
        P = an.paths[f]
        for i in f.insts():
            w = value(an, P, i)
            if w:
                fl = set()
                for j in f.insts():
                    if j.op == 'store' and j.ops[0].kind == 'int' and j.ops[0].n and together(i, j):
                        q = P.of(j.ops[1])
                        if q[0] == P.of(i.ops[1])[0]:
                            fl.add(q[1])
                guards[w] = guards.get(w, fl) & fl
    for f in mod.defined():
        if f.name in an.prog.inlined:
            continue
        P = an.paths[f]
        sets, inc, dec, cnt = [], [], [], []
        for i in f.insts():
            w = value(an, P, i)
            if w:
                sets.append((i, w, P.of(i.ops[0])))
            c = an.change(f, i)
            if c:
                cnt.append((i,) + c)
            nm = name(i)
            if nm.lstrip('_') in ('Py_INCREF', 'Py_XINCREF', 'Py_NewRef', 'Py_XNewRef') and i.ops:
                inc.append((i, P.of(i.ops[0])))
            if nm in ('Py_DECREF', 'Py_XDECREF') and i.ops:
                dec.append((i, P.of(i.ops[0])))
        n += len(sets) + len(cnt)
        # what a value refers to is also reached through its field
        al = {}
        for i, ty, x in sets:
            al[('ld', P.of(i.ops[1]))] = x if ('ld', P.of(i.ops[1])) not in al else None
        cnt = [(c[0], al[c[1]][0]) + c[2:] if al.get(c[1]) and al[c[1]][1] == 0 else c for c in cnt]
        inc = [(c, al.get(y[0]) or y if y[1] == 0 else y) for c, y in inc]
        for i, ty, x in sets:
            per.setdefault(ty, ({}, {}))
            on = [c for c in cnt if c[3] == 1 and (c[1], 0) == x and together(c[0], i)]
            rep.check(len(on) == 1, 'count:%s:%s' % (f.name, ty), '%s in %s: a %s refers to a file and is counted in it %d times' % (i.loc(), f.name, ty, len(on)))
            for c in on:
                per.setdefault(ty, ({}, {}))[0][c[2]] = c[0]
            rep.check(any(y == x and together(c, i) for c, y in inc), 'ref:%s:%s' % (f.name, ty), '%s in %s: a %s refers to a file without holding a reference' % (i.loc(), f.name, ty))
        for i, obj, k, d in cnt:
            if d == 1:
                rep.check(any(x == (obj, 0) and together(i, s) for s, ty, x in sets), 'stray:%s:%s' % (f.name, k), '%s in %s: a value is counted in %s but none refers to the file' % (i.loc(), f.name, k))
                continue
            rep.check(d == -1, 'step:%s:%s' % (f.name, k), '%s in %s: %s changes by %d' % (i.loc(), f.name, k, d))
            rep.check(any(y == (obj, 0) and released(P, i, c, obj, guards) for c, y in dec), 'unref:%s:%s' % (f.name, k),
                      '%s in %s: a value is counted off in %s but its reference to the file is kept' % (i.loc(), f.name, k))
            if obj[0] == 'ld' and isinstance(obj[1][0], tuple) and obj[1][0][0] == 'as':
                per.setdefault(obj[1][0][2], ({}, {}))[1][k] = i
        for c, y in dec:
            if y[1] == 0 and isinstance(y[0], tuple) and y[0][0] == 'ld' and isinstance(y[0][1][0], tuple) and y[0][1][0][0] == 'as':
                ty = y[0][1][0][2]
                fs = {o // 8: x for o, x, _, _ in an.mod.fieldnames.get(ty, ())}
                if fs.get(y[0][1][1]) == 'pp':
                    rep.check(any(k[3] == -1 and (k[1], 0) == y and released(P, k[0], c, k[1], guards) for k in cnt), 'uncount:%s:%s' % (f.name, ty),
                              '%s in %s: the reference of a %s to its file is released without counting it off' % (c.loc(), f.name, ty))
    for ty, (on, off) in sorted(per.items()):
        rep.check(set(on) == set(off) and len(on) == 1, 'counter:%s' % ty, 'values of type %s are counted in %s and counted off in %s' % (
            ty, ', '.join(sorted(on)) or 'nothing', ', '.join(sorted(off)) or 'nothing'))
    rep.count('kinds of values', len(per))
    rep.count('counting sites', n)
    rep.floor('kinds of values', 1)


def together(a, b):
    """every path through one of the instructions passes the other"""
    if a.bb is b.bb:
        return True
    return over(a.bb, b.bb) or over(b.bb, a.bb)


def released(P, count, dec, obj, guards):
    """every path through the count passes the release, and every path to the release on which there is an object passes the count"""
    if together(count, dec):
        return True
    f = dec.bb
    def none(p, b):
        """on this edge there is no object"""
        t = p.insts[-1]
        c = t.ops[0] if t.op == 'br' and t.ops else None
        return c is not None and c.kind == 'inst' and c.op == 'icmp' and c.pred in ('eq', 'ne') and \
            {P.of(c.ops[0]), P.of(c.ops[1])} & set(NULLS) and any(x == (obj, 0) or flag(x, obj, guards) for x in (P.of(c.ops[0]), P.of(c.ops[1]))) and \
            t.succs[0 if c.pred == 'eq' else 1] is b and t.succs[0] is not t.succs[1]
    # paths from the count to the end avoid the release?
    seen, work = set(), [s for s in count.bb.succs() if not none(count.bb, s)] if count.bb is not f else []
    while work:
        b = work.pop()
        if b in seen or b is f:
            continue
        seen.add(b)
        if not b.succs():
            return False
        work.extend(s for s in b.succs() if not none(b, s))
    # backwards from the release to the entry, not through the count or where there is no object
    seen, work = set(), [f]
    while work:
        b = work.pop()
        if b in seen or b is count.bb:
            continue
        seen.add(b)
        if not b.preds:
            return False
        work.extend(p for p in b.preds if not none(p, b))
    return True


def flag(x, obj, guards):
    """a field of the same value that is set whenever it refers to a file"""
    if x[1] or not isinstance(x[0], tuple) or x[0][0] != 'ld' or obj[0] != 'ld' or not isinstance(x[0][1][0], tuple):
        return False
    return x[0][1][0] == obj[1][0] and x[0][1][1] in guards.get(obj[1][0][2], ())


def over(x, y):
    """x comes before y on every path to y, and y after x on every path from x"""
    f = x.fn if hasattr(x, 'fn') else None

    def reach(s, stop, nxt):
        seen, work = set(), [s]
        while work:
            b = work.pop()
            if b in seen or b is stop:
                continue
            seen.add(b)
            work.extend(nxt(b))
        return seen
    back = reach(y, x, lambda b: b.preds)
    fwd = reach(x, y, lambda b: b.succs())
    return not any(not b.preds for b in back) and not any(not b.succs() for b in fwd)


def run(rep, tier):
    rep.level = 'other'
    rep.rule = 'path-sensitive typestate of the file object (opened, marked, counted, closed) in its methods; pairing of counters and references by dominance'
    prog = Program(inline=True)
    an = A(rep, prog)
    if an.dealloc is None or not an.counters:
        raise AnalysisBroken('the file object has no destructor or no counters')
    rep.count('counters', len(an.counters))
    rep.floor('counters', 1)
    for f, s in sorted(an.slots.items(), key=lambda x: x[0].name):
        c = C(an, f)
        e = engine.Engine(prog.mod, f, c, None, kmax=20, maxsteps=20000)
        e.run()
        if e.truncated:
            raise AnalysisBroken('%s not fully explored' % f.name)
        rep.count('methods')
        rep.count('uses', c.n)
        for k, m in c.found.items():
            rep.bad(k, m)
        rep.ok(max(c.n - len(c.found), 0))
    rep.floor('methods', 6)
    rep.floor('uses', 8)
    pairs(rep, an)
    rep.assumptions = ['values reach their file only through their field pp', 'methods of one file object that release the interpreter lock are not run concurrently with its re-initialisation']
