"""A08: every recursion is depth limited; nothing else takes stack in proportion to its input."""
import engine
from engine import Engine, Client
from common import Program, AnalysisBroken, sccs, strip_dot
from modref import ModRef

LIMIT = 4096        # a depth limit larger than this does not protect an 8 MB (or a thread's) stack
FRAME = 65536       # bytes of local variables in one recursive function
ENTRY = 1000


def run(rep, tier):
    rep.rule = ('every cycle of the call graph (function pointers resolved) must carry a depth: on every path through the cycle a counter '
                '(integer parameter or field of the state object) strictly grows and has been compared with a constant limit before the next '
                'level is entered; or the recursion works on the smaller part of a split range; or it consumes an index checked against a '
                'constant. No variable-size stack allocation.')
    for nd in ([True] if tier == 'quick' else [True, False]):
        analyse(rep, Program(ndebug=nd), '' if nd else '[asserts] ')
    rep.floor('functions', 300)
    rep.floor('recursive call cycles', 8)
    rep.floor('recursive calls', 25)
    rep.assumptions = ['CPython limits its own recursion (Py_EnterRecursiveCall)',
                       'a depth limit of at most %d levels fits the stack' % LIMIT]


def analyse(rep, prog, tag):
    g = prog.callgraph()
    names = {f.name for f in prog.funcs}
    g = {n: {c for c in cs if c in names} for n, cs in g.items() if n in names}
    rep.count('functions', len(names))
    for f in prog.funcs:
        for i in f.insts():
            if i.op == 'alloca':
                rep.count('stack allocations')
                n = i.ops[0] if i.ops else None
                if n is not None and n.kind != 'int':
                    rep.bad('alloca:%s' % f.name, '%s%s in %s: stack allocation whose size is not a constant' % (tag, i.loc(), f.name))
                else:
                    rep.ok()
            elif i.op == 'call' and strip_dot(i.cname()) in ('llvm.stacksave', 'alloca'):
                rep.bad('alloca:%s' % f.name, '%s%s in %s: stack allocation whose size is not a constant' % (tag, i.loc(), f.name))
    modref = ModRef(prog)
    for comp in sccs(g):
        if len(comp) == 1 and comp[0] not in g[comp[0]]:
            continue
        cycle(rep, prog, modref, [prog.mod.funcs[n] for n in sorted(comp)], tag)


def root(v):
    while v.kind == 'inst' and v.op in ('gep', 'bitcast'):
        v = v.ops[0]
    return v


def counters(prog, fs):
    """fields counted up or down by constants somewhere in the cycle: {(struct, index path)}"""
    out = set()
    for f in fs:
        for i in f.insts():
            if i.op == 'store' and i.ops[0].kind == 'inst' and i.ops[0].op == 'add':
                a, v = i.ops[1], i.ops[0]
                if v.ops[1].kind != 'int' or abs(engine.sx(v.ops[1].n, engine.width(v.ty))) != 1:
                    continue
                if a.kind == 'inst' and a.op == 'gep' and v.ops[0].kind == 'inst' and v.ops[0].op == 'load' and \
                        all(o.kind == 'int' for o in a.ops[1:]) and root(a).kind == 'arg':
                    out.add((a.srcty, tuple(o.n for o in a.ops[1:]), v.ty))
    return out


class Cl(Client):
    """one function of a cycle; typestate: none beyond the engine's facts"""

    def __init__(self, prog, modref, f, comp, ctrs, an):
        self.prog, self.f, self.comp, self.ctrs, self.an = prog, f, comp, ctrs, an
        self.seed = {}
        self.sites = {}
        self.rets = []
        self.entered = []

    def start(self, eng, st):
        st.ps = ()
        n = 0
        used = set()
        for i in self.f.insts():
            if i.op == 'gep' and root(i).kind == 'arg' and all(o.kind == 'int' for o in i.ops[1:]):
                used.add((root(i).idx if i.ops[0].kind == 'arg' else None, i.srcty, tuple(o.n for o in i.ops[1:])))
        for a in self.f.args:
            if a.ty != 'ptr':
                continue
            for sty, ix, ty in sorted(self.ctrs):
                if self.an.carries(self.f, a.idx, sty):
                    off = eng.gepoff(sty, list(ix))
                    addr = eng.off(('a', a.idx), off)
                    if len(ix) > 1:
                        eng.addrinfo.setdefault(addr, (sty, tuple(ix[1:])))
                    t = ('a', ENTRY + n)
                    n += 1
                    st.mem[(addr, ty)] = t
                    self.seed[(addr, ty)] = (t, a.idx, (sty, ix, ty))

    def store(self, eng, st, inst, addr, val):
        # (states with different counters are kept apart)
        k = (addr, inst.ops[0].ty)
        if k in self.seed:
            d = delta(val, self.seed[k][0])
            st.ps = tuple(x for x in st.ps if x[0] != k) + ((k, d),)

    def call(self, eng, st, inst, args):
        ts = self.prog.targets(inst)
        rec = [t for t in ts if t in self.comp]
        if not rec:
            return self.guardcall(eng, st, inst, args, ts)
        self.an.site(self, eng, st, inst, args, rec)
        keep = {k: st.mem[k] for k in self.seed if k in st.mem}
        eng.default_call(st, inst, args)
        # a callee of the cycle never leaves a counter below its entry value (checked at its returns)
        st.mem.update(keep)
        if inst.ty == 'void':
            return [(st, None)]
        return [(st, st.env[inst])]

    def guardcall(self, eng, st, inst, args, ts):
        """a callee that returns different constants depending on a depth it is given"""
        if not ts or inst.ty not in ('i32', 'i1', 'i8', 'i64') or any(t.decl for t in ts):
            return None
        cand = [k for k, a in enumerate(args) if inst.ops[k].ty in ('i32', 'i64', 'i16') and self.isdepth(a)]
        if not cand:
            return None
        outs = None
        k = cand[0]
        for t in ts:
            s = self.an.guard(t, k)
            if s is None:
                return None
            outs = s if outs is None else outs | s
        res = []
        eng.default_call(st, inst, args)
        w = engine.width(inst.ops[k].ty)
        for c, ub in sorted(outs, key=str):
            s2 = st.copy()
            if ub is not None and not eng.upd(s2, args[k], uhi=ub, w=w):
                continue
            res.append((s2, ('k', c)))
        return res or None

    def isdepth(self, t):
        while t[0] in ('add', 'zext', 'sext', 'trunc'):
            t = t[1]
        return t[0] == 'a'

    def ret(self, eng, st, inst, val):
        for key, (t, ai, c) in self.seed.items():
            v = st.mem.get(key)
            d = delta(v, t)
            if d is None or d < 0:
                self.an.unbalanced.setdefault(c, []).append((self.f, inst, eng.trail_str(st)))


def same(a, b):
    """the same value, possibly computed twice"""
    if a is b or (a.kind == b.kind == 'int' and a.n == b.n):
        return True
    return a.kind == b.kind == 'inst' and a.op == b.op and a.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'lshr', 'sdiv', 'udiv') and \
        all(same(x, y) for x, y in zip(a.ops, b.ops))


def smaller(f, inst, v):
    """the call is only reached where v was compared and found at most as large as another computed size"""
    for b in f.blocks:
        t = b.insts[-1]
        if t.op != 'br' or len(t.succs) != 2 or t.succs[0] is t.succs[1]:
            continue
        c = t.ops[0]
        if c.kind != 'inst' or c.op != 'icmp':
            continue
        first = same(c.ops[0], v)
        if not first and not same(c.ops[1], v):
            continue
        o = c.ops[1] if first else c.ops[0]
        if o.kind != 'inst':
            continue
        p = c.pred if first else engine.SWAP[c.pred]
        for truth, d in ((True, t.succs[0]), (False, t.succs[1])):
            q = p if truth else engine.NEG[p]
            if q in ('ult', 'ule', 'slt', 'sle') and len(d.preds) == 1 and engine.dominates(f, d, inst.bb):
                return True
    return False


def bounded(eng, st, t0, w):
    """the counter (or the counter plus a constant: it starts at a constant and never wraps) was compared with a limit"""
    if eng.urange(st, t0, w)[1] <= LIMIT:
        return True
    for t, f in st.facts.items():
        d = delta(t, t0)
        if d is not None and d >= 0 and (f[3] <= LIMIT or f[1] <= LIMIT or any(0 < n <= LIMIT for n in f[4])):
            return True
    return False


def delta(v, t):
    if v == t:
        return 0
    if v is not None and v[0] == 'add' and v[1] == t and v[2][0] == 'k':
        return v[2][1]
    return None


class Guard(Client):
    def __init__(self, k):
        self.k, self.out = k, set()

    def ret(self, eng, st, inst, val):
        w = engine.width(inst.ops[0].ty) if inst.ops else 0
        c = eng.const_of(st, val, w) if val is not None else None
        a = eng.fn.args[self.k]
        ub = eng.urange(st, ('a', self.k), engine.width(a.ty))[1]
        ub = ub if ub <= LIMIT else None
        if c is None and val is not None and w:
            lo, hi = eng.srange(st, val, w)
            if hi - lo <= 8:
                for n in range(lo, hi + 1):
                    self.out.add((n, ub))
                return
        self.out.add((c, ub))


class Cycle:
    def __init__(self, prog, modref, fs):
        self.prog, self.modref, self.fs = prog, modref, fs
        self.comp = set(fs)
        self.ctrs = counters(prog, fs)
        self.unbalanced = {}
        self.edges = {}         # (carrier) -> {inst: [status per path]}
        self.guards = {}
        self.calls = {}
        self.trails = {}

    def carries(self, f, ai, sty):
        for i in f.insts():
            if i.op == 'gep' and i.srcty == sty and i.ops[0].kind == 'arg' and i.ops[0].idx == ai:
                return True
        # handed on to another function of the cycle that does
        return (f.name, ai, sty) in self.passed

    def passing(self):
        self.passed = set()
        styps = {c[0] for c in self.ctrs}
        ch = True
        while ch:
            ch = False
            for f in self.fs:
                for i in f.insts():
                    if i.op == 'call':
                        for t in self.prog.targets(i):
                            if t in self.comp:
                                for k, o in enumerate(i.ops):
                                    if o.kind == 'arg' and o.ty == 'ptr':
                                        for s in styps:
                                            if (f.name, o.idx, s) not in self.passed and self.carries(t, k, s):
                                                self.passed.add((f.name, o.idx, s))
                                                ch = True

    def guard(self, t, k):
        key = (t.name, k)
        if key not in self.guards:
            if k >= len(t.args) or sum(1 for _ in t.insts()) > 3000:
                self.guards[key] = None
            else:
                cl = Guard(k)
                e = Engine(self.prog.mod, t, cl, modref=self.modref)
                e.run()
                ok = not e.truncated and all(c is not None for c, _ in cl.out)
                self.guards[key] = cl.out if ok else None
        return self.guards[key]

    def site(self, cl, eng, st, inst, args, rec):
        """record, per depth carrier, what this path does to it"""
        f = cl.f
        for t in rec:
            self.calls.setdefault((inst, t), 0)
            self.calls[(inst, t)] += 1
            # integer parameters
            for k, a in enumerate(args):
                if inst.ops[k].ty not in ('i32', 'i64', 'i16'):
                    continue
                w = engine.width(inst.ops[k].ty)
                lo, hi = eng.urange(st, a, w)
                for src in f.args:
                    if src.ty != inst.ops[k].ty:
                        continue
                    d = delta(a, ('a', src.idx))
                    if d is not None and d >= 0:
                        bound = bounded(eng, st, ('a', src.idx), w)
                        self.note(('arg', f.name, src.idx), ('arg', t.name, k), inst, t, d > 0, bound, eng, st)
                # an explicitly smaller part
                self.half(f, inst, t, k, a, w, eng, st)
            # counters
            for key, (t0, ai, c) in cl.seed.items():
                for k, a in enumerate(args):
                    if a == ('a', ai) and t.args[k].ty == 'ptr' and self.carries(t, k, c[0]):
                        d = delta(st.mem.get(key), t0)
                        if d is not None and d >= 0:
                            w = engine.width(c[2])
                            b = bounded(eng, st, t0, w)
                            self.note(('fld', c), ('fld', c), inst, t, d > 0, b, eng, st)
                        else:
                            self.note(('fld', c), ('fld', c), inst, t, None, False, eng, st)

    def half(self, f, inst, t, k, a, w, eng, st):
        if a[0] == 'k':
            return
        ok = smaller(f, inst, inst.ops[k])
        self.halves.setdefault((inst, t, k), []).append(ok)

    def note(self, src, dst, inst, t, inc, bound, eng, st):
        self.edges.setdefault((inst, t), {}).setdefault((src, dst), []).append((inc, bound, eng.trail_str(st)))

    def go(self):
        self.halves = {}
        self.passing()
        for f in self.fs:
            cl = Cl(self.prog, self.modref, f, self.comp, self.ctrs, self)
            e = Engine(self.prog.mod, f, cl, modref=self.modref)
            e.run()
            if e.truncated:
                raise AnalysisBroken('exploration of %s did not finish' % f.name)


def acyclic(nodes, edges):
    g = {n: set() for n in nodes}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
        g.setdefault(b, set())
    for c in sccs(g):
        if len(c) > 1 or c[0] in g[c[0]]:
            return False, c
    return True, None


def cycle(rep, prog, modref, fs, tag):
    cy = Cycle(prog, modref, fs)
    cy.go()
    rep.count('recursive call cycles')
    rep.count('recursive calls', len(cy.calls))
    name = '+'.join(f.name for f in fs)
    fnames = [f.name for f in fs]
    all_sites = set(cy.calls)

    # (1) a depth carried by parameters: assign to each function one parameter such that every call passes it on
    def try_carrier(start):
        """start: ('arg', fn, idx) or ('fld', c)"""
        assign = {}
        if start[0] == 'fld':
            if start[1] in cy.unbalanced:
                return None
            ok_edges = {}
            for s in all_sites:
                r = cy.edges.get(s, {}).get((start, start))
                if not r or len(r) < cy.calls[s] or any(x[0] is None for x in r):
                    return None
                ok_edges[s] = (all(x[0] for x in r), all(x[1] for x in r), r)
            return ok_edges
        assign[start[1]] = start
        work = [start[1]]
        ok_edges = {}
        while work:
            fn = work.pop()
            for s in all_sites:
                inst, t = s
                if inst.fn.name != fn:
                    continue
                cand = [(d, r) for (sr, d), r in cy.edges.get(s, {}).items() if sr == assign[fn] and len(r) >= cy.calls[s]]
                if t.name in assign:
                    cand = [x for x in cand if x[0] == assign[t.name]]
                if not cand:
                    return None
                d, r = cand[0]
                if t.name not in assign:
                    assign[t.name] = d
                    work.append(t.name)
                ok_edges[s] = (all(x[0] for x in r), all(x[1] for x in r), r)
        return ok_edges
    starts = [('arg', fs[0].name, a.idx) for a in fs[0].args if a.ty in ('i16', 'i32', 'i64')] + [('fld', c) for c in sorted(cy.ctrs)]
    best = None
    for s in starts:
        e = try_carrier(s)
        if e is None or len(e) < len(all_sites):
            continue
        inc_ok, c1 = acyclic(fnames, [(i.fn.name, t.name) for (i, t), v in e.items() if not v[0]])
        chk_ok, c2 = acyclic(fnames, [(i.fn.name, t.name) for (i, t), v in e.items() if not v[1]])
        sc = (inc_ok and chk_ok, inc_ok + chk_ok, sum(v[0] for v in e.values()), sum(v[1] for v in e.values()))
        if best is None or sc > best[0]:
            best = (sc, s, e, c1, c2)
    if best and best[0][0]:
        rep.ok(2 * len(all_sites))
        rep.notes.append('%s%s: limited by %s' % (tag, name, desc(prog, best[1])))
        return
    # (2) recursion into the smaller part of a range
    if len(fs) == 1:
        f = fs[0]
        for k in range(len(f.args)):
            rs = [cy.halves.get((i, t, k)) for i, t in all_sites]
            if rs and all(r and all(r) for r in rs):
                rep.ok(len(all_sites))
                rep.notes.append('%s%s: only recurses into the smaller of two parts' % (tag, name))
                return
    # (3) an index into a constant-size input: incremented and bounds checked on every way round
    r = consumes(prog, cy, fnames, all_sites)
    if r:
        rep.ok(len(all_sites))
        rep.notes.append('%s%s: consumes an index that is checked against a constant' % (tag, name))
        return
    if best:
        bad = [(i, t, v) for (i, t), v in sorted(best[2].items(), key=lambda x: x[0][0].loc()) if not (v[0] and v[1])]
        i, t, v = bad[0] if bad else next((i, t, v) for (i, t), v in best[2].items())
        what = 'does not grow' if not v[0] else 'is not compared with a limit'
        p = next((x[2] for x in v[2] if not (x[0] and x[1])), '')
        rep.bad('recursion:%s' % name, '%s%s in %s: recursive call of %s on which the depth (%s) %s; path %s' % (
            tag, i.loc(), i.fn.name, t.name, desc(prog, best[1]), what, p))
    else:
        i, t = sorted(all_sites, key=lambda s: s[0].loc())[0]
        un = [x for v in cy.unbalanced.values() for x in v]
        extra = '; a counter is lower at the return at %s than at entry (path %s)' % (un[0][1].loc(), un[0][2]) if un else ''
        rep.bad('recursion:%s' % name, '%s%s in %s: recursive call of %s carries no depth that is passed on by every call of the cycle%s' % (
            tag, i.loc(), i.fn.name, t.name, extra))


def desc(prog, s):
    if s[0] == 'arg':
        f = prog.mod.funcs[s[1]]
        return 'parameter %d of %s' % (s[2], s[1])
    sty, ix, _ = s[1]
    return 'field %s of %s' % (prog.struct_field(sty, ix[-1]), sty)


def consumes(prog, cy, fnames, sites):
    """a counter field only ever counted up in the cycle; every way round counts it up, and it is compared with a constant
    before it is counted up"""
    for c in sorted(cy.ctrs):
        up = True
        for f in cy.fs:
            for i in f.insts():
                if i.op == 'store' and i.ops[1].kind == 'inst' and i.ops[1].op == 'gep' and i.ops[1].srcty == c[0] and \
                        tuple(o.n if o.kind == 'int' else None for o in i.ops[1].ops[1:]) == c[1]:
                    v = i.ops[0]
                    if not (v.kind == 'inst' and v.op == 'add' and v.ops[1].kind == 'int' and engine.sx(v.ops[1].n, engine.width(v.ty)) > 0):
                        up = False
        if not up:
            continue
        inc, chk = [], []
        for s in sites:
            r = cy.edges.get(s, {}).get((('fld', c), ('fld', c))) or []
            if len(r) < cy.calls[s]:
                return False
            # (only growth counts: an unknown value of a counter that is never lowered is at least its entry value)
            if not all(x[0] for x in r):
                inc.append((s[0].fn.name, s[1].name))
            if not all(x[0] and x[1] for x in r):
                chk.append((s[0].fn.name, s[1].name))
        if acyclic(fnames, inc)[0] and acyclic(fnames, chk)[0]:
            return True
    return False
