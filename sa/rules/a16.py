"""A16: elements are handled with the width, signedness and kind their type tag says.

For every function and every type tag it looks at, the function is evaluated once per type (tags.Run): branches not taken for the type are
pruned, sizes and names become constants.  What remains is compared with the type: accesses to the elements of the object that carries the
tag, conversions of the loaded elements, item sizes, callbacks, type names."""
import re

from engine import Engine, Client
from common import Program, AnalysisBroken, sccs, address_taken
from tags import Paths, Run, TOP, users, width, gepoff

# (bits, signed, float)
DEBUG = False
KIND = {'i8': (8, True, False), 'u8': (8, False, False), 'i16': (16, True, False), 'u16': (16, False, False),
        'i32': (32, True, False), 'u32': (32, False, False), 'i64': (64, True, False), 'u64': (64, False, False),
        'f': (32, None, True)}
V = {2: 'i8', 3: 'u8', 4: 'i16', 5: 'u16', 6: 'i32', 7: 'u32', 25: 'i64', 26: 'u64', 8: 'f'}
P = {0: 'i8', 1: 'u8', 2: 'i16', 3: 'u16', 4: 'i32', 5: 'u32', 7: 'i64', 8: 'u64', 6: 'f'}
FAM = {'vector': V, 'prim': P}
SIGNED_PY = {'PyLong_FromLong': 1, 'PyLong_FromLongLong': 1, 'PyLong_FromSsize_t': 1,
             'PyLong_FromUnsignedLong': 0, 'PyLong_FromUnsignedLongLong': 0, 'PyLong_FromSize_t': 0}


INV = {'vector': {n: t for t, n in V.items()}, 'prim': {n: t for t, n in P.items()}}
CODINGS = {'item size': lambda n: KIND[n][0] // 8, 'vector type': lambda n: INV['vector'][n], 'primitive vector type': lambda n: INV['prim'][n],
           'type name': lambda n: n,
           'value type': lambda n: 22 if n == 'f' else (27 if KIND[n][1] else 28) if KIND[n][0] == 64 else 20 if KIND[n][1] else 21}


class Prog(Program):
    """small functions are inlined whether they are static or not, so that accessors and helpers are seen in their users"""

    def _inline_set(self, m, keep, maxinl):
        size, calls = {}, {}
        for f in m.defined():
            size[f.name] = sum(1 for _ in f.insts())
            calls[f.name] = {i.callee.name for i in f.insts() if i.op == 'call' and i.callee.kind == 'func' and not i.callee.decl}
        rec = set()
        for scc in sccs(calls):
            if len(scc) > 1 or scc[0] in calls.get(scc[0], ()):
                rec.update(scc)
        grows = set()
        for f in m.defined():
            if f.args and f.file.endswith('dynarray.c') and any(i.op == 'store' and i.ops[1].kind == 'inst' and i.ops[1].op == 'gep' for i in f.insts()):
                grows.add(f.name)
        return {f.name for f in m.defined() if self.is_project(f) and f.name not in rec and size[f.name] <= 160 and f.name not in grows
                and not f.name.endswith(('_malloc', '_free', '_calloc', '_realloc'))}


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('every function is evaluated once per element type of every type tag it distinguishes; the accesses, conversions, sizes, strides, '
                'type constants and callbacks left on the reachable paths agree with the type; a number from Python is stored in an element '
                'only after the comparison that shows that it fits')
    rep.assumptions = ['an object whose type tag and elements are reached through the same access path has elements of the type in the tag',
                       'PyLong_As*/PyLong_From* have the signedness in their names', 'pointers made through untyped casts in callees that '
                       'are not inlined are not followed']
    prog = Prog(ndebug=True)
    A(rep, prog).all()
    narrowing(rep)
    rep.floor('tags', 20)
    rep.floor('evaluations', 250)
    rep.floor('constants that depend on the type', 5)


class A:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.mod = rep, prog, prog.mod
        self.fkind = {}

    def all(self):
        self.paths, self.known = {f: Paths(self.mod, f) for f in self.prog.funcs}, {}
        for f in self.prog.funcs:
            for k, cs in self.subjects(f, self.paths[f]).items():
                t, w = self.family(cs), self.where(k)
                if t and w:
                    self.known[w] = t if self.known.get(w, t) == t else None
        for f in self.prog.funcs:
            self.one(f)
            self.values(f)
        self.tables()

    # ---- tables of type names
    def tables(self):
        for g in self.mod.globals.values():
            rows = g.init.elems if g.has_init and g.init is not None and g.init.kind == 'agg' and g.init.elems else None
            if not rows or not all(r.kind == 'agg' and r.elems for r in rows):
                continue
            cols = list(zip(*[r.elems for r in rows]))
            for names in cols:
                ns = [self.text(x) for x in names]
                if sum(n in KIND for n in ns) < 5:
                    continue
                self.rep.count('tables of type names')
                self.rep.check(set(ns) == set(KIND), '%s:names' % g.name, 'table %s: names %s' % (g.name, ns))
                for col in cols:
                    vals = [x.n if x.kind == 'int' else None for x in col]
                    if None in vals:
                        continue
                    for cname, coding in CODINGS.items():
                        good = [n in KIND and coding(n) == x for n, x in zip(ns, vals)]
                        if sum(good) >= len(good) - 2 and len(set(vals)) >= 3:
                            for n, x, ok in zip(ns, vals, good):
                                self.rep.check(ok, '%s:%s' % (g.name, n), 'table %s: the %s of %s is %s' % (g.name, cname, n, x))
                            break

    @staticmethod
    def text(x):
        while x.kind == 'cexpr' and x.ops:
            x = x.ops[0]
        if x.kind == 'global' and x.init is not None and x.init.text is not None:
            return x.init.text.rstrip(b'\0').decode('latin-1')
        return None

    # ---- tags of a function
    def subjects(self, f, paths):
        """canonical path -> constants it is compared with"""
        r = {}
        for i in f.insts():
            if i.op == 'switch':
                v, cs = i.ops[0], [n for n, _ in i.cases]
            elif i.op == 'icmp' and i.pred in ('eq', 'ne') and i.ops[1].kind == 'int' and width(i.ops[0].ty):
                v, cs = i.ops[0], [i.ops[1].n]
            else:
                continue
            while v.kind == 'inst' and v.op in ('zext', 'sext', 'freeze'):
                v = v.ops[0]
            p = paths.of(v)
            if p[0][0] in ('ld', 'a', 'and', 'trunc', 'lshr'):
                r.setdefault(p, set()).update(cs)
        return r

    @staticmethod
    def obj(key):
        """(root, offset) the tag is loaded from"""
        k = key[0]
        while k[0] in ('and', 'trunc', 'lshr'):
            k = (k[2] if k[0] == 'trunc' else k[1])[0]
        if k[0] == 'ld':
            return k[1]
        return None

    @staticmethod
    def family(cs):
        if len(cs & set(V)) >= 5 and (cs & {25, 26} or len(cs & set(range(9, 30))) >= 2 or not cs & {0, 1}):
            return 'vector'
        if len(cs & set(P)) >= 7 and max(cs) <= 9:
            return 'prim'
        if len(cs & set(V)) >= 5:
            return 'vector'
        return None

    @classmethod
    def where(cls, key):
        """(structure, offset) of a tag in an object of Python"""
        o = cls.obj(key)
        return (o[0][2], o[1], key[0][0]) if o and o[0][0] == 'as' else None

    # ---- element accesses
    def links(self, v, paths):
        """objects whose elements the address v may lie in: list of (root, offset)"""
        out = []
        p = paths.of(v)
        self.spine(p, out, True)
        return out

    def spine(self, p, out, first, d=0):
        root = p[0]
        while root[0] in ('ix', 'as'):
            if root[0] == 'as':
                break
            if not first:
                for ix in root[3]:
                    self.index(ix, out)
            first = False
            root = root[1][0]
        if root[0] == 'phi':
            if d < 3:
                for q in root[1]:
                    self.spine(q, out, False, d + 1)
        elif root[0] == 'ld':
            out.append(root[1])
            r2 = root[1][0]
            while r2[0] == 'ix':
                for ix in r2[3]:
                    self.index(ix, out)
                r2 = r2[1][0]

    def index(self, p, out, depth=0):
        if depth > 8:
            return
        k = p[0]
        if k[0] == 'ld':
            out.append(k[1])
            r = k[1][0]
            while r[0] == 'ix':
                for ix in r[3]:
                    self.index(ix, out, depth + 1)
                r = r[1][0]
        elif k[0] in ('and', 'or', 'add', 'mul', 'shl', 'lshr', 'sub'):
            self.index(k[1], out, depth + 1)
            self.index(k[2], out, depth + 1)
        elif k[0] == 'trunc':
            self.index(k[2], out, depth + 1)

    def accesses(self, f, paths, params=False):
        """(instruction, element type, address, links)"""
        out = []
        for i in f.insts():
            if i.op == 'load':
                ty, a = i.ty, i.ops[0]
            elif i.op == 'store':
                ty, a = i.ops[0].ty, i.ops[1]
            else:
                continue
            if not (width(ty) in (8, 16, 32, 64) or ty == 'float'):
                continue
            p = paths.of(a)
            if p[0][0] != 'ix' or p[1] != 0 or not (width(p[0][2]) or p[0][2] == 'float'):
                continue
            ls = self.links(a, paths)
            if ls or params and p[0][1][0][0] == 'a':
                out.append((i, ty, a, ls))
        return out

    @staticmethod
    def best(ls, keys, paths):
        """the tag that belongs to the object an address points into: same root, nearest"""
        r, d = None, None
        for k, o in keys.items():
            if o is None:
                continue
            for root, off in ls:
                if root == o[0]:
                    n = abs(off - o[1])
                    if d is None or n < d:
                        r, d = k, n
        return r

    def one(self, f):
        paths = self.paths[f]
        subj = self.subjects(f, paths)
        tags = {k: self.family(cs) or cs and self.known.get(self.where(k)) for k, cs in subj.items()}
        tags = {k: t for k, t in tags.items() if t}
        if not tags:
            return
        keys = {k: self.obj(k) for k in tags}
        acc = [(i, ty, a, self.best(ls, keys, paths)) for i, ty, a, ls in self.accesses(f, paths)]
        cnt = self.counts(f, paths, keys)
        for k, fam in tags.items():
            self.rep.count('tags')
            has, prof, fac = {}, {}, {}
            for t, name in FAM[fam].items():
                self.rep.count('evaluations')
                r = Run(paths, {k: t})
                n = 0
                for i, ty, a, key in acc:
                    if i.bb not in r.live or key is not None and key != k or key is None and k[0][0] != 'a':
                        continue
                    if self.handle(f, i):
                        continue
                    n += 1
                    self.access(f, i, ty, name, r)
                    if i.op == 'load':
                        self.signs(f, i, name, r)
                has[name] = n
                for i, c, key in cnt:
                    if i.bb in r.live and key == k:
                        x = r.get(c)
                        if x is not TOP and x:
                            fac.setdefault(name, {}).setdefault(i, x)
                self.profile(f, name, r, prof)
                self.pushes(f, k, keys, name, r, paths)
            if self.family(subj[k]):
                self.pattern(f, {n for n, c in has.items() if c}, k, 'elements are accessed')
            self.judge(f, k, prof, len(FAM[fam]))
            if len({frozenset().union(*m.values()) for m in fac.values()}) > 2:        # depends on the type
                for name, m in fac.items():
                    self.rep.count('sizes computed from item counts', len(m))
                    for i, x in m.items():
                        self.check(f, x == {KIND[name][0] // 8}, i, '%s:count' % name,
                                   'the number of items of a vector of %s is multiplied by %s' % (name, sorted(x)))
            if DEBUG:
                print('T', f.name, str(k)[:60], fam, sum(has.values()), sorted(set(has.values())))
        self.pairs(f, tags, keys, paths)

    def check(self, f, cond, i, key, msg):
        self.rep.check(cond, '%s:%s' % (f.name, key), '%s: %s: %s' % (i.loc(), f.name, msg))

    # ---- all types of a kind are handled
    PATTERNS = [set(KIND), {n for n in KIND if n != 'f'}, {n for n in KIND if KIND[n][1]}, {n for n in KIND if KIND[n][1] is False},
                {n for n in KIND if KIND[n][0] < 64}, {n for n in KIND if n != 'f' and KIND[n][0] < 64}]

    def pattern(self, f, names, k, what):
        if len(names) < 3:
            return
        self.rep.check(names in self.PATTERNS, '%s:missing:%s' % (f.name, what[:12]),
                       '%s:%d: %s: %s for %s but not for %s' % (f.file, f.line, f.name, what, ' '.join(sorted(names)),
                                                                 ' '.join(sorted(set(KIND) - names))))

    # ---- numbers of items
    def counts(self, f, paths, keys):
        """(multiplication, other factor, tag) where one factor is an item count of the object of a tag"""
        out = []
        for i in f.insts():
            if i.op != 'mul':
                continue
            for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                ls = []
                p = paths.of(a)
                if p[0][0] == 'ld' and not (a.kind == 'inst' and a.ty == 'ptr'):
                    root, off = p[0][1]
                    if root[0] == 'ix':
                        for ix in root[3]:
                            self.index(ix, ls)
                    else:
                        ls.append((root, off))
                k = self.best(ls, keys, paths)
                if k is not None and k != p:
                    out.append((i, b, k))
        return out

    # ---- constants that depend on the type
    def profile(self, f, name, r, prof):
        def put(key, i, x):
            if x is not TOP and x:
                prof.setdefault(key, {}).setdefault(name, {})[i] = x
        for b in r.live:
            for i in b.insts:
                if i.op in ('phi', 'select'):
                    put(('val', i.idx), i, r.get(i))
                elif i.op == 'call' and i.callee.kind == 'func':
                    for j, o in enumerate(i.ops):
                        if o.kind in ('int', 'global', 'func') or o.kind == 'inst' and o.op in ('phi', 'select', 'zext', 'sext', 'trunc', 'load') \
                                or o.kind == 'cexpr':
                            put(('call', i.callee.name, j), i, r.get(o))
                elif i.op == 'store' and i.ops[0].kind in ('int', 'func', 'global', 'inst'):
                    put(('store', r.p.of(i.ops[1])), i, r.get(i.ops[0]))

    @staticmethod
    def merge(prof, total):
        """the values per type; constants used whatever the type is are left out when others remain"""
        out = {}
        for key, m in prof.items():
            common = set()
            if len(m) == total:
                first, *rest = m.values()
                common = {i for i, x in first.items() if all(r.get(i) == x for r in rest)}
            o = {}
            for n, xs in m.items():
                ys = {i: x for i, x in xs.items() if i not in common} if common else xs
                if ys:
                    o[n] = (set().union(*ys.values()), next(iter(ys)))
            if o:
                out[key] = o
        return out

    def judge(self, f, k, prof, total):
        for key, m0 in self.merge(prof, total).items():
            m = m0
            one = {n: next(iter(s)) for n, (s, i) in m.items() if len(s) == 1}
            if len(one) < 5 or len(set(map(repr, one.values()))) < 3:
                continue
            all1 = one
            for cname, coding in CODINGS.items():
                m, one = m0, all1
                if cname == 'item size':
                    m = {n: (s, i) for n, (s, i) in m.items() if s != {0}}      # 0: not handled
                    one = {n: x for n, x in one.items() if n in m}
                good = [n for n, x in one.items() if self.same(coding(n), x)]
                if len(good) < 5 or len(good) < len(one) - 2 or len({repr(one[n]) for n in good}) < 3:
                    continue
                self.rep.count('constants that depend on the type')
                if DEBUG:
                    print('C', f.name, cname, key if len(str(key)) < 80 else '', len(m))
                for n, (s, i) in m.items():
                    self.check(f, len(s) == 1 and n in good, i, '%s:%s' % (n, cname),
                               'the %s used for %s is %s' % (cname, n, ', '.join(sorted(self.show(x) for x in s))))
                self.pattern(f, set(m), k, 'the %s is used' % cname)
                break
            else:
                if all(getattr(x, 'kind', None) == 'func' for x in one.values()):
                    self.callbacks(f, key, m)

    @staticmethod
    def show(x):
        if isinstance(x, int):
            return str(x)
        if x.kind == 'global' and x.init is not None and x.init.text:
            return repr(x.init.text.rstrip(b'\0').decode('latin-1'))
        return x.name

    @staticmethod
    def same(want, x):
        if isinstance(want, str):
            return not isinstance(x, int) and x.kind == 'global' and x.init is not None and x.init.text is not None \
                and x.init.text.rstrip(b'\0') == want.encode()
        return isinstance(x, int) and x == want

    def callbacks(self, f, key, m):
        for n, (s, i) in m.items():
            for g in s:
                if getattr(g, 'kind', None) != 'func' or g.decl:
                    continue
                for ty, sg, at in self.kinds(g):
                    self.rep.count('accesses of callbacks')
                    bits, signed, fl = KIND[n]
                    self.check(f, (ty == 'float') == fl and (fl or width(ty) == bits and (sg is None or sg == signed)), i, '%s:callback' % n,
                               'for %s the callback %s is used, which handles elements as %s%s (%s)'
                               % (n, g.name, {True: 'signed ', False: 'unsigned ', None: ''}[sg], ty, at.loc()))

    def kinds(self, g):
        """(type, signedness or None, where) of the elements a callback handles"""
        r = self.fkind.get(g.name)
        if r is None:
            r = self.fkind[g.name] = []
            paths = Paths(self.mod, g)
            for i, ty, a, ls in self.accesses(g, paths, True):
                sg = None
                if i.op == 'load':
                    for u in users(g, i):
                        sg = self.sign_of(u) if sg is None else sg
                r.append((ty, sg, i))
        return r

    @staticmethod
    def sign_of(u):
        if u.op in ('sext', 'sitofp') or u.op == 'icmp' and u.pred[0] == 's':
            return True
        if u.op in ('zext', 'uitofp') or u.op == 'icmp' and u.pred[0] == 'u':
            return False
        return None

    # ---- conversions of loaded elements
    def signs(self, f, i, name, r):
        bits, signed, fl = KIND[name]
        self.cut(f, i, name, r)
        if fl:
            for u in users(f, i):
                if u.op == 'fpext':
                    self.formats(f, u, name, r)
            return
        work, seen = [(i, bits, signed)], set()
        for u in users(f, i):
            if u.bb not in r.live:
                continue
            s = self.sign_of(u)
            if u.op == 'zext' and all(x.op in ('shl', 'or') for x in users(f, u)):
                continue        # packed into a structure
            if s is not None:
                self.check(f, s == signed, u, '%s:%s' % (name, u.op), 'an element of type %s is treated as %s' % (name, 'signed' if s else 'unsigned'))
            if u.op == 'call':
                self.sink(f, u, i, name, bits, signed, r)
            if u.op in ('sext', 'zext') and s == signed:
                for x in users(f, u):
                    if x.bb in r.live and x.op == 'call':
                        self.sink(f, x, u, name, width(u.ty), signed, r)
                    if x.op in ('sext', 'zext'):
                        for y in users(f, x):
                            if y.bb in r.live and y.op == 'call':
                                self.sink(f, y, x, name, width(x.ty), signed, r)

    def values(self, f):
        """integers of values are extended and converted with the signedness of the type of the value"""
        paths = self.paths[f]
        tags = {}
        for k, cs in self.subjects(f, paths).items():
            o = self.obj(k)
            if o and cs & {20, 21, 27, 28} and cs <= set(range(0, 30)):
                tags[k] = o, cs
        if not tags:
            return
        loads = [(i, paths.of(i.ops[0])) for i in f.insts() if i.op == 'load' and width(i.ty) in (32, 64)]
        for k, ((root, off), cs) in tags.items():
            mine = [i for i, p in loads if p == (root, off + 4)]
            if not mine:
                continue
            self.rep.count('tags of values')
            for t, name in ((20, 'i32'), (21, 'u32'), (27, 'i64'), (28, 'u64')):
                if t not in cs and not cs <= set(range(20, 29)):
                    continue
                r = Run(paths, {k: t})
                for i in mine:
                    if i.bb in r.live and width(i.ty) == KIND[name][0] and not self.handle(f, i):
                        if DEBUG:
                            print('VAL', f.name, name, i.loc(), [u.op for u in users(f, i)])
                        self.signs(f, i, name, r)

    def cut(self, f, i, name, r):
        """an element that loses its upper bits is not used as a number afterwards"""
        for t in users(f, i):
            if t.op != 'trunc' or t.bb not in r.live or not width(t.ty) or width(t.ty) == 1:
                continue
            if any(x.op == 'lshr' for x in users(f, i)):
                continue        # taken apart
            work, seen = [t], set()
            while work:
                x = work.pop()
                if x in seen or x.bb not in r.live:
                    continue
                seen.add(x)
                if x.op in ('sext', 'zext', 'icmp', 'sitofp', 'uitofp', 'store'):
                    self.check(f, False, t, '%s:cut' % name, 'an element of type %s is cut to %s' % (name, t.ty))
                    return
                if x.op in ('trunc', 'phi', 'select', 'freeze'):
                    work += users(f, x)
            self.check(f, True, t, name, '')

    def sink(self, f, call, v, name, bits, signed, r):
        c = call.cname()
        if c in SIGNED_PY:
            w = KIND[name][0]
            good = (SIGNED_PY[c] or not signed) and not (SIGNED_PY[c] and not signed and w == 64)
            if not good and any(x.op == 'icmp' and x.pred[0] == ('s' if signed else 'u') for w in self.back(v) for x in users(f, w)):
                return      # converted according to its value
            self.check(f, good, call, '%s:%s' % (name, c), 'an element of type %s is converted by %s' % (name, c))
        elif call.callee.kind == 'func' and call.callee.vararg:
            self.format(f, call, v, name)

    @staticmethod
    def back(v):
        r = [v]
        while r[-1].kind == 'inst' and r[-1].op in ('sext', 'zext') and r[-1].ops[0].kind == 'inst':
            r.append(r[-1].ops[0])
        return r

    def formats(self, f, u, name, r):
        for x in users(f, u):
            if x.op == 'call' and x.bb in r.live and x.callee.kind == 'func' and x.callee.vararg:
                self.format(f, x, u, name)

    def format(self, f, call, v, name):
        fmts = [j for j, o in enumerate(call.ops) if o.kind == 'global' and o.init is not None and o.init.text and b'%' in o.init.text]
        if len(fmts) != 1:
            return
        convs = re.findall(r'%[-+ #0]*\d*(?:\.\d+)?(hh|h|ll|l|z|j)?([a-zA-Z%])', call.ops[fmts[0]].init.text.decode('latin-1'))
        convs = [x for x in convs if x[1] != '%']
        args = call.ops[fmts[0] + 1:]
        for (ln, c), o in zip(convs, args):
            if o is not v:
                continue
            bits, signed, fl = KIND[name]
            if fl:
                good = c in 'fFeEgG'
            elif signed:
                good = c in 'di' and (bits < 64 or ln in ('l', 'll', 'z', 'j'))
            else:
                good = (c in 'uxXo' or bits < 32 and c in 'di' or bits == 32 and c in 'di' and ln in ('l', 'll')) and (bits < 64 or ln in ('l', 'll', 'z', 'j'))
            self.check(f, good, call, '%s:format' % name, 'an element of type %s is printed with %%%s%s' % (name, ln, c))

    # ---- items copied into a vector
    def calls(self, f, names):
        return [i for i in f.insts() if i.op == 'call' and i.cname() in names]

    def pushes(self, f, k, keys, name, r, paths):
        size = KIND[name][0] // 8
        for i in self.calls(f, ('pointless_dynarray_init',)):
            if i.bb in r.live and self.owner(i.ops[0], keys, paths) == k:
                x = r.get(i.ops[1])
                if x is not TOP and x:
                    self.check(f, x == {size}, i, '%s:init' % name, 'the array of a vector of %s is made for items of %s bytes' % (name, sorted(x)))
        for i in self.calls(f, ('pointless_dynarray_push',)):
            if i.bb not in r.live:
                continue
            if k not in (self.owner(i.ops[0], keys, paths), self.best(self.links(i.ops[1], paths), keys, paths)):
                continue
            p = paths.of(i.ops[1])
            alts = p[0][1] if p[0][0] == 'phi' else (p,)
            if len(alts) == 1 and p[0][0] == 'ix':
                w = width(p[0][2]) or (32 if p[0][2] == 'float' else None)
                g = i.ops[1]
                while g.kind == 'inst' and g.op == 'bitcast':
                    g = g.ops[0]
                if w == 8 and g.kind == 'inst' and g.op == 'gep' and g.ops[-1].kind == 'inst' and g.ops[-1].op == 'mul':
                    xs = [r.get(o) for o in g.ops[-1].ops]
                    xs = [x for x in xs if x is not TOP and x]
                    for x in xs:
                        self.check(f, x <= {0, size}, i, '%s:stride' % name, 'items of %s are copied from steps of %s bytes' % (name, sorted(x)))
                elif w:
                    self.check(f, w == 8 * size, i, '%s:stride' % name, 'items of %s are copied from steps of %d bytes' % (name, w // 8))

    def owner(self, arr, keys, paths):
        p = paths.of(arr)
        return self.best([p], keys, paths)

    def pairs(self, f, tags, keys, paths):
        """items are only copied between vectors of the same type"""
        for i in self.calls(f, ('pointless_dynarray_push', 'pointless_dynarray_push_bulk')):
            k1 = self.owner(i.ops[0], keys, paths)
            k2 = self.best(self.links(i.ops[1], paths), keys, paths)
            if k1 is None or k2 is None or k1 == k2:
                continue
            for t1, n1 in FAM[tags[k1]].items():
                for t2, n2 in FAM[tags[k2]].items():
                    r = Run(paths, {k1: t1, k2: t2})
                    self.rep.count('evaluations')
                    self.check(f, n1 == n2 or i.bb not in r.live, i, '%s:%s:copy' % (n1, n2), 'items of type %s are copied into a vector of %s' % (n2, n1))

    def handle(self, f, i, depth=0):
        """a 32-bit value only used as an index is a handle, not an element"""
        if i.op != 'load' or i.ty != 'i32':
            return False
        us = users(f, i)
        return bool(us) and all(u.op in ('zext', 'sext') and all(x.op in ('gep', 'mul') for x in users(f, u)) for u in us)

    def access(self, f, i, ty, name, r):
        bits, signed, fl = KIND[name]
        self.rep.check((ty == 'float') == fl and (fl or width(ty) == bits), '%s:%s' % (f.name, name),
                       '%s: %s: element of a vector of %s accessed as %s' % (i.loc(), f.name, name, ty))


# ------------------------------------------------------------------ numbers given by the user
def narrowing(rep):
    """a number is only stored in a smaller type after the comparison that shows that it fits"""
    m = Program(ndebug=True, inline=False).mod
    found = []
    for f in m.defined():
        if not f.file.startswith(('src/', 'python/')):
            continue
        for a in f.args:
            if a.ty not in ('i32', 'i8', 'i64'):
                continue
            cs = set()
            for i in f.insts():
                if i.op == 'switch' and i.ops[0] is a:
                    cs.update(n for n, _ in i.cases)
                elif i.op == 'icmp' and i.ops[0] is a and i.ops[1].kind == 'int':
                    cs.add(i.ops[1].n)
            if A.family(cs) != 'prim':
                continue
            outs = {}
            for i in f.insts():
                if i.op == 'store' and width(i.ops[0].ty) in (8, 16, 32, 64):
                    v = i.ops[1]
                    while v.kind == 'inst' and v.op in ('gep', 'bitcast'):
                        v = v.ops[0]
                    if v.kind == 'arg':
                        outs.setdefault(v, set()).add(width(i.ops[0].ty))
            for v, ws in outs.items():
                if len(ws) >= 3:
                    found.append((f.name, a.idx, v.idx))
    rep.count('conversions of numbers to element types', len(found))
    prog = Program(ndebug=True, keep={f for f, _, _ in found})
    for fname, ti, vi in found:
        f = prog.mod.funcs[fname]
        for t, name in P.items():
            if name == 'f':
                continue
            cl = Narrow(rep, f, ti, vi, t, name)
            e = Engine(prog.mod, f, cl, None, kmax=40, maxsteps=20000)
            e.run()
            rep.count('paths of number conversions', cl.n)


class Narrow(Client):
    def __init__(self, rep, f, ti, vi, t, name):
        self.rep, self.f, self.ti, self.vi, self.t, self.name, self.n = rep, f, ti, vi, t, name, 0

    def starts(self, eng, st):
        st.ps = ()
        eng.upd(st, ('a', self.ti), slo=self.t, shi=self.t, w=width(self.f.args[self.ti].ty))
        return [st]

    def store(self, eng, st, inst, addr, val):
        if eng.base(addr) == ('a', self.vi):
            v, w = inst.ops[0], width(inst.ops[0].ty)
            c = w
            while v.kind == 'inst' and v.op in ('trunc', 'zext', 'sext') and v.ops[0].kind == 'inst':
                c = min(c, width(v.ty))
                v = v.ops[0]
            st.ps = (w, eng.ev(st, v), width(v.ty), ''.join(sorted(self.leaf(v))), min(c, width(v.ty)))

    def leaf(self, v, seen=None):
        """does the number come from a signed or an unsigned conversion of the Python number, where that can be told"""
        seen = seen if seen is not None else set()
        if v.kind != 'inst' or v in seen:
            return set()
        seen.add(v)
        if v.op == 'call':
            n = v.callee.name if v.callee.kind == 'func' else ''
            return {'u' if 'Unsigned' in n or 'Size_t' in n else 's'} if n.startswith('PyLong_As') else set()
        if v.op in ('phi', 'select', 'freeze', 'trunc', 'sext', 'zext', 'bitcast'):
            return set().union(*[self.leaf(x, seen) for x in (v.ops[1:] if v.op == 'select' else v.ops)])
        return set()

    def ret(self, eng, st, inst, val):
        w = width(self.f.retty) or 32
        if val is not None and eng.urange(st, val, w)[1] == 0:
            return
        if not st.ps:
            return
        self.n += 1
        bits, signed, _ = KIND[self.name]
        key = '%s:%s' % (self.f.name, self.name)
        got, x, xw, leaf, least = st.ps
        slo, shi = eng.srange(st, x, xw)
        ulo, uhi = eng.urange(st, x, xw)
        self.rep.check(got == bits, key + ':width', '%s: number for an element of type %s stored with %d bits' % (self.f.name, self.name, got))
        if signed:
            lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
            ok = uhi <= hi or (lo <= slo and shi <= hi and leaf != 'u')
            if bits == 64 and leaf == 'u':
                ok = uhi <= hi
        else:
            ok = uhi < 1 << bits and (leaf != 's' or slo >= 0)
        if ok and least < bits and uhi >= 1 << least - 1:
            ok = False
        if not ok and any(i.op == 'icmp' and any(o.kind == 'inst' and o.op == 'load' for o in i.ops) for i in self.f.insts()):
            self.rep.count('conversions with limits from memory, not judged')
            return
        self.rep.check(ok, key + ':range', '%s: a number outside the range of %s is accepted: signed range [%s], unsigned range [%s]' % (
            self.f.name, self.name, '%d, %d' % (slo, shi), '%d, %d' % (ulo, uhi)))
