"""A19: a vector hashes the same as Python object, while it is written and in a file.

For every element type, what is fed into the hash of a vector is brought to a normal form (the number itself, its 32 low bits, the hash
function applied to it) at every place that hashes elements, by evaluating the function with the type tag fixed; the forms must agree
between all places.  At every place the number of items the hash starts with is the number of items that are fed in."""
from common import Program, AnalysisBroken, strip_dot, sccs
from tags import Paths, Run, TOP, width
from rules import a16

INIT, NEXT, END = 'pointless_vector_hash_init_32', 'pointless_vector_hash_next_32', 'pointless_vector_hash_end_32'


def name(i):
    return strip_dot(i.cname() or '') if i.op == 'call' else ''


class N:
    def __init__(self, prog, rec):
        self.prog, self.mod = prog, prog.mod
        self.ident = {}
        self.rec = rec

    def identity(self, fn):
        """does fn return its argument unchanged"""
        if fn not in self.ident:
            ok = not fn.decl and len(fn.args) == 1 and len(fn.rets()) == 1 and bool(fn.rets()[0].ops)
            v = fn.rets()[0].ops[0] if ok else None
            while ok and v.kind == 'inst' and v.op in ('bitcast', 'freeze'):
                v = v.ops[0]
            self.ident[fn] = ok and v is fn.args[0]
        return self.ident[fn]

    def forms(self, v, run, signed, d=0):
        if v.kind in ('int', 'undef', 'null'):
            return set()
        if v.kind == 'arg':
            return {'argument'}
        if v.kind != 'inst' or d > 20:
            return {'?'}
        if v.op == 'phi':
            out = set()
            for x, b in v.incoming:
                if (b, v.bb) in run.edges and x is not v:
                    out |= self.forms(x, run, signed, d + 1)
            return out
        if v.op == 'select':
            return self.forms(v.ops[1], run, signed, d + 1) | self.forms(v.ops[2], run, signed, d + 1)
        if v.op == 'load':
            return {'number of %d' % width(v.ty) if width(v.ty) and width(v.ty) < 32 else 'number'} if width(v.ty) else {'float'}
        if v.op in ('zext', 'sext'):
            w = width(v.ops[0].ty)
            return {('number' if (v.op == 'sext') == signed else 'number with the wrong sign') if f == 'number of %d' % w else f
                    for f in self.forms(v.ops[0], run, signed, d + 1)}
        if v.op == 'trunc':
            w = width(v.ty)
            fs = self.forms(v.ops[0], run, signed, d + 1)
            if w >= 32:
                return fs
            return {'%d low bits of %s' % (w, f) for f in fs}
        if v.op in ('bitcast', 'freeze', 'fpext', 'fptrunc'):
            return self.forms(v.ops[0], run, signed, d + 1)
        if v.op == 'call' and v.callee.kind == 'func':
            t = v.callee
            if t.decl or not self.prog.is_project(t):
                return {name(v)}
            if self.identity(t):
                return self.forms(v.ops[0], run, signed, d + 1)
            if t.name in self.rec:
                return {'hash of the value'}
            if len(v.ops) == 1 and v.ops[0].ty != 'ptr':
                return {'%s(%s)' % (strip_dot(t.name), f) for f in self.forms(v.ops[0], run, signed, d + 1)}
            return {'number' if width(v.ty) else 'float'}
        if v.op in ('urem', 'udiv', 'and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr'):
            return {'%s(%s)' % (v.op, f) for f in self.forms(v.ops[0], run, signed, d + 1) | self.forms(v.ops[1], run, signed, d + 1)}
        return {v.op}


def run(rep, tier):
    rep.level = 'other'
    rep.rule = 'normal forms of what is hashed per element type, compared between all implementations (type-indexed evaluation); matching of lengths and loops'
    prog = Program(inline=True)
    cg = prog.callgraph()
    rec = set()
    for scc in sccs(cg):
        if len(scc) > 1 or scc[0] in cg.get(scc[0], ()):
            rec |= set(scc)
    n = N(prog, rec)
    a = a16.A(rep.__class__(rep.prop, tier), prog)
    a.paths, a.known = {f: Paths(prog.mod, f) for f in prog.funcs}, {}
    forms = {}          # type name -> {form: [place]}
    places = 0
    for f in prog.funcs:
        sites = [i for i in f.insts() if name(i) == NEXT]
        if not sites:
            continue
        paths = a.paths[f]
        places += len(sites)
        subj = a.subjects(f, paths)
        tags = {k: a.family(cs) for k, cs in subj.items() if a.family(cs)}
        free = Run(paths, {})
        for i in sites:
            base = n.forms(i.ops[1], free, True)
            for k, fam in tags.items():
                per = {}
                for t, ty in a16.FAM[fam].items():
                    kd = a16.KIND.get(ty)
                    r = Run(paths, {k: t})
                    if i.bb in r.live and kd:
                        per[ty] = n.forms(i.ops[1], r, ty.startswith('i'))
                if sum(len(x) == 1 for x in per.values()) < 4 or len({frozenset(x) for x in per.values()}) < 2 and len(base) > 1:
                    continue
                for ty, fs in per.items():
                    for x in fs - {'hash of the value'}:
                        forms.setdefault(ty, {}).setdefault(x, []).append((f, i))
                        rep.count('element hashes')
    for ty, fs in sorted(forms.items()):
        best = max(fs, key=lambda x: (len(fs[x]), x == 'number'))
        for x, where in fs.items():
            for f, i in where:
                rep.check(x == best, 'element:%s:%s' % (ty, f.name), '%s in %s: the hash of an element of type %s is made from %s, elsewhere from %s' % (
                    i.loc(), f.name, ty, x, best))
    lengths(rep, prog, a)
    rep.count('places that hash elements', places)
    rep.floor('places that hash elements', 3)
    rep.floor('element hashes', 10)
    rep.assumptions = ['the sign of extended elements is that of their type (A16)', 'all implementations use %s' % NEXT]


def strip(p):
    while p[0][0] == 'trunc':
        p = p[0][2]
    return p


def lengths(rep, prog, a):
    for f in prog.funcs:
        inits = [i for i in f.insts() if name(i) == INIT]
        paths = a.paths[f]
        for i in inits:
            nxt = [x for x in f.insts() if name(x) == NEXT and paths.of(x.ops[0]) == paths.of(i.ops[0])]
            end = [x for x in f.insts() if name(x) == END and paths.of(x.ops[0]) == paths.of(i.ops[0])]
            if not nxt or not end:
                rep.bad('frame:%s' % f.name, '%s in %s: a hash of items is started but not fed or finished' % (i.loc(), f.name))
                continue
            rep.ok()
            want = strip(paths.of(i.ops[1]))
            found, seen = None, []
            for c in f.insts():
                if c.op != 'icmp' or c.pred[0] not in 'us' or c.bb not in {b for x in nxt for b in looped(f, x.bb)}:
                    continue
                for u, v in (c.ops, c.ops[::-1]):
                    s = counter(u)
                    if s is None:
                        continue
                    b = strip(paths.of(v))
                    seen.append(c)
                    if s.kind == 'int' and s.n == 0 and b == want or b[0][0] == 'add' and \
                            {strip(b[0][1]), strip(b[0][2])} == {want, strip(paths.of(s))} or b[0][0] == 'add' and strip(b[0][1]) == strip(b[0][2]) == want:
                        found = c
            if not seen:
                rep.count('loops of another shape')
                continue
            skip = [c for c in seen if misses(c.bb, {x.bb for x in nxt})]
            rep.check(not skip, 'skipped:%s' % f.name, '%s in %s: an item can be left out of the hash' % (skip and skip[0].loc(), f.name))
            rep.check(found is not None, 'length:%s' % f.name, '%s in %s: the hash starts with another number of items than the loop at line %d feeds in' % (
                i.loc(), f.name, seen[0].line))


def misses(head, feed):
    """is there a way round a loop that does not feed an item"""
    seen, work = set(), [x for x in head.succs() if x not in feed]
    while work:
        b = work.pop()
        if b is head:
            return True
        if b not in seen:
            seen.add(b)
            work.extend(x for x in b.succs() if x not in feed)
    return False


def looped(f, b):
    """blocks on a cycle through b"""
    def go(nxt):
        seen, work = set(), [b]
        while work:
            for s in nxt(work.pop()):
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return seen
    return go(lambda x: x.succs()) & go(lambda x: x.preds)


def counter(v):
    """start of a loop counter"""
    while v.kind == 'inst' and v.op in ('zext', 'sext', 'trunc', 'freeze'):
        v = v.ops[0]
    if v.kind != 'inst' or v.op != 'phi' or len(v.incoming) != 2:
        return None
    for (x, b), (y, c) in (v.incoming, v.incoming[::-1]):
        if x.kind == 'inst' and x.op == 'add' and v in x.ops and any(o.kind == 'int' and o.n == 1 for o in x.ops):
            return y
    return None
