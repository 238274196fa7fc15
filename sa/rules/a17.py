"""A17: positions are checked against the length of what they are used on.

Every access to the items of a primitive vector, to the elements of a vector in a file and to the bits of a bitvector, in the functions of
the extension, is an obligation 0 <= index < number of items of that object, at that moment.  It is discharged by the linear facts the path
has established (abstract interpretation, no solver)."""
import multiprocessing
import os

import engine
from engine import Client, Engine, width
from common import Program, AnalysisBroken, sccs, strip_dot, address_taken
from lin import Lin, show
from modref import ModRef
from tags import Paths
from rules import a11
from rules.a11 import QUIET, LIBC


class Null:
    def __getattr__(self, n):
        return lambda *a: None


PRIM = {'pointless_dynarray_item_at', 'pointless_reader_vector_n_items', 'bm_is_set_', 'bm_set_', 'bm_reset_', 'pointless_reader_bitvector_is_set',
        'pointless_reader_bitvector_n_bits', 'pointless_bitvector_is_set_bits', 'pointless_dynarray_push', 'pointless_dynarray_push_bulk', 'pointless_dynarray_pop',
        'pointless_dynarray_clear', 'pointless_dynarray_destroy', 'pointless_dynarray_swap', 'pointless_dynarray_init',
        'pointless_dynarray_give_data'}


COUNT = {'pointless_reader_vector_n_items': 'vn', 'pointless_reader_bitvector_n_bits': 'vb'}
ESIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'float': 4, 'value': 8}


def x_low(k):
    """a lower bound of a number of items that can change"""
    return k[0][1][0] not in ('vn', 'vb')


class L2(Lin):
    """linear readings in which a number known to be small enough is not changed by a narrowing"""

    small = ()

    def arange(self, t):
        a, b = super().arange(t)
        while t[0] == 'old':
            t = t[1:]
        return (a, min(b, self.small[t])) if t in self.small else (a, b)

    def _u(self, t, w, raw=False):
        if t[0] == 'trunc':
            e = self.u(t[1], t[2])
            if self.fits(e, w) or self.lo(e) >= 0 and self.prove(self.add(self.const((1 << w) - 1), e, -1), 2):
                return e
            return self.atom(t, w)
        e = super()._u(t, w, raw)
        if t[0] == 'sub' and e == {t: 1}:
            d = self.add(self.u(t[1], w), self.u(t[2], w), -1)
            if t not in d and self.prove(d, 3):
                return d
            # a difference found not to be negative
            lo = self.eng.srange(self.st, t, w)[0]
            if t not in d and lo >= 0 and all(self.rng(self.u(x, w))[1] < 1 << (w - 1) for x in t[1:3]):
                self.extra.append(self.add(d, self.const(-lo)))
                return d
        elif t[0] == 'add' and e == {t: 1} and t[2][0] == 'k' and t[2][1] < 0:
            d = self.add(self.u(t[1], w), self.const(t[2][1]))
            if t not in d and self.prove(d, 3):
                return d
        elif t[0] == 'add' and e == {t: 1}:
            d = self.add(self.u(t[1], w), self.u(t[2], w))
            if t not in d and self.prove(self.add(self.const((1 << w) - 1), d, -1), 3):
                return d
        return e


class Prog(Program):
    def _inline_set(self, m, keep, maxinl):
        size, calls = {}, {}
        for f in m.defined():
            size[f.name] = sum(1 for _ in f.insts())
            calls[f.name] = {i.callee.name for i in f.insts() if i.op == 'call' and i.callee.kind == 'func' and not i.callee.decl}
        rec = set()
        for scc in sccs(calls):
            if len(scc) > 1 or scc[0] in calls.get(scc[0], ()):
                rec.update(scc)
        self.prims = {n for n in size if n in PRIM or n.startswith('pointless_reader_vector_')}
        self.swallowed = {f.name for f in m.defined() if f.file.startswith('python/') and f.name not in rec and size[f.name] <= 700 and f.name not in self.prims}
        taken = address_taken(m)
        called = set().union(*calls.values())
        self.only_inlined = {n for n in self.swallowed if n not in taken and (m.funcs[n].linkage in (8, 9) or n in called)}
        small = {f.name for f in m.defined() if f.file.startswith('src/') and f.name not in rec and size[f.name] <= 12 and f.name not in self.prims}
        return self.swallowed | small


class Eng(Engine):
    """states that are joined keep the comparisons both made with what is now one value"""

    def havoc(self, st, args, callee=None, inst=None):
        low = {k: t for k, t in st.mem.items() if k[1] == 'low' or k in self.client.plain and self.const_of(st, t, 32) == 0}
        super().havoc(st, args, callee, inst)
        st.mem.update(low)

    def holds(self, st, p, x, y, w):
        if (p, x, y) in st.rels:
            return True
        if not w:
            return False
        L = self.client.lin(self, st)
        d = L.add(L.u(y, w), L.u(x, w), -1)
        if p[0] == 's' and (L.rng(L.u(y, w))[1] >= 1 << (w - 1) or L.rng(L.u(x, w))[1] >= 1 << (w - 1)):
            return False
        return L.prove(d if p[2] == 'e' else L.add(d, L.const(-1)), 3)

    def _genphi(self, st, i, t, t0, v):
        """a new name for the value a counter gets: it is below what the value was below"""
        w = width(i.ty)
        new = set()
        if w:
            for k, n in list(st.mem.items()):
                if k[1] == 'low' and n[0] != 'k' and n != t and self.holds(st, 'ult', t0, n, w):
                    new.add(('ult', t, n))
        super()._genphi(st, i, t, t0, v)
        if new:
            st.rels = st.rels | new

    def nonzero(self, st, n):
        f = st.facts.get(n)
        if f is not None and f[2] >= 1:
            return True
        L = self.client.lin(self, st)
        return L.prove(L.add(L.u(n, 32), L.const(-1)), 3)

    def join(self, a, b):
        s = super().join(a, b)
        new = set()
        for p, q in ((a, b), (b, a)):
            for r in p.rels - q.rels:
                if r[0] in ('ult', 'ule', 'slt', 'sle') and (r[0][:2] + 'e', r[1], r[2]) in q.rels:
                    new.add((r[0][:2] + 'e', r[1], r[2]))
        for v, t in s.env.items():
            if t == ('top', v.idx):
                x, y = a.env.get(v), b.env.get(v)
                if x is None or y is None or x == y:
                    continue
                if width(v.ty):
                    lows = [n for k, n in s.mem.items() if k[1] == 'low'] + [x for ps in self.client.bound.values() for ti, tn in ps for x in (tn, ('add', ti, tn))]
                    for n in lows:
                        for r in ('ult', 'ule'):
                            if n[0] != 'k' and self.holds(a, r, x, n, width(v.ty)) and self.holds(b, r, y, n, width(v.ty)):
                                new.add((r, t, n))
                                break
                for p, q, m in ((a, x, b), (b, y, a)):
                    other = y if q is x else x
                    for r in p.rels:
                        if r[0] not in ('ult', 'slt', 'ule', 'sle'):
                            continue
                        if r[1] == q and r[2] != q and self.holds(m, r[0], other, r[2], width(v.ty)):
                            new.add((r[0], t, r[2]))
                        if r[2] == q and r[1] != q and self.holds(m, r[0], r[1], other, width(v.ty)):
                            new.add((r[0], r[1], t))
        for k, n in s.mem.items():
            if k[1] == 'low' and n[0] != 'k' and s.facts.get(n, (0, 0, 0))[2] < 1 and a.mem.get(k) == n and b.mem.get(k) == n \
                    and all(self.nonzero(x, n) for x in (a, b)):
                self.upd(s, n, ulo=1)
        if new:
            s.rels = s.rels | new
        return s


class Bounds(Client):
    def __init__(self, an, f):
        self.an, self.f, self.rep = an, f, an.rep
        self.paths = an.paths(f)
        self.byidx = {i.idx: i for i in f.insts()}
        self.kinds = {}     # answers to type tests
        self.small = {}     # term -> greatest value (assumed)
        self.objs = {}      # symbol of a base pointer -> (kind, base term of the object, ...)
        self.aw = {}
        self.done = {}
        self.vecs = {}      # vector object -> (first, number)
        self.bound = {}     # vector value in a file -> [(first, number)] that lie inside it
        self.grows_bits = an.makes_room(f)
        self.copies = set()
        self.plain = set()  # where is it kept whether a bitvector is part of a file: once it is not, it never is
        c = an.contracts.get(f.name)
        if c is not None and len(f.args) > max(c):
            ti, tn = ('a', c[1]), ('a', c[2])
            self.aw[ti] = self.aw[tn] = 32
            self.bound[('a', c[0])] = [(ti, tn)]

    def starts(self, eng, st):
        st.ps = ()
        return [st]

    def extern_pure(self, callee):
        n = strip_dot(callee.name) if hasattr(callee, 'name') else callee
        return n in QUIET or n.startswith(LIBC)

    def lin(self, eng, st):
        L = L2(eng, st, self.aw)
        L.small = self.small
        # the first item and the number of items of a part are both below the number of items of the whole
        for ps in self.bound.values():
            for ti, tn in ps:
                L.extra.append({None: (1 << 32) - 1, ti: -1, tn: -1})
        L.facts()
        return L

    # ---- naming
    def load(self, eng, st, inst, addr):
        p = self.paths.of(inst.ops[0])
        if p[0][0] == 'as':
            k = (p[0][2], p[1])
            b = self.root(addr, p[1])
            an = self.an
            if b is not None and k == an.infile and inst.ty == 'i32':
                self.plain.add((addr, inst.ty))
                return
            if b is not None and k in an.frozen and inst.ty == 'i32':
                if self.stable(eng, b):
                    t = self.part(k, b)
                    st.mem[(addr, inst.ty)] = t
                return
            if b is not None and k in an.counts and inst.ty == an.counts[k][0]:
                t = st.mem.get((addr, inst.ty))
                if t is None or t[0] != 'k':
                    # every place that reads it has its own name for it, so that paths can be joined
                    old, t = t, eng.fresh(st, inst)
                    self.small[t] = (1 << an.counts[k][1]) - 1
                    if old is not None and old != t:
                        st.rels = st.rels | {('eq', t, old)}
                    self.aw[t] = width(inst.ty)
                    st.mem[(addr, inst.ty)] = t
                if t[0] != 'k' and k[0] in an.count and an.count[k[0]][0] == k[1]:
                    for (x, ty), n in list(st.mem.items()):
                        if ty == 'low' and x[1] == b and n != t and n[0] != 'k':
                            st.rels = st.rels | {('ule', n, t)}
                    st.mem[(('low', b, inst.idx), 'low')] = t
                return
            if b is not None and k in an.data and inst.ty == 'ptr':
                s = st.mem.get((addr, inst.ty))
                if s is not None and (s in self.objs or s[0] == 'k'):
                    return
                s = ('a', 'items of %r' % (b,)) if self.stable(eng, b) else ('i', inst.idx)
                self.aw[s] = 64
                self.objs[s] = (p[0][2], b)
                st.mem[(addr, inst.ty)] = s
                return
        self.access(eng, st, inst, addr, inst.ty)

    def part(self, k, b):
        """the constant slice bounds of a vector in a file"""
        an = self.an
        s = ('PyPointlessVector', b)
        if s not in self.vecs:
            ti, tn = [('a', '%s of %r' % (x, b)) for x in ('slice_i', 'slice_n')]
            self.aw[ti] = self.aw[tn] = 32
            self.vecs[s] = (ti, tn)
            self.bound.setdefault(self.off(b, an.voff), []).append((ti, tn))
        return self.vecs[s][0 if an.frozen[k] == 'slice_i' else 1]

    @staticmethod
    def off(b, n):
        if n == 0:
            return b
        if b[0] == 'off':
            return ('off', b[1], b[2] + n)
        return ('off', b, n)

    def store(self, eng, st, inst, addr, val):
        p = self.paths.of(inst.ops[1])
        if p[0][0] == 'as':
            k = (p[0][2], p[1])
            b = self.root(addr, p[1])
            if k in self.an.counts or k in self.an.data:
                if k[0] in self.an.count and self.an.count[k[0]][0] == k[1] and not self.an.grows_store(inst):
                    for x in [x for x in st.mem if x[1] == 'low' and x[0][1] != b and not self.apart(eng, x[0][1], b) or x[1] == 'low' and x[0][1] == b]:
                        del st.mem[x]
                return
            if k == self.an.infile:
                self.rep.check(eng.const_of(st, val, 32) == 0 or b is not None and self.fresh(eng.base(b)), '%s:%s' % (self.f.name, 'is_pointless'),
                               '%s: %s: a bitvector is turned into one of a file after it was made' % (inst.loc(), self.f.name))
                return
            if k in self.an.frozen:
                self.frozen_store(eng, st, inst, b)
                return
        self.access(eng, st, inst, addr, inst.ops[0].ty)

    def apart(self, eng, a, b):
        if b is None or a[0] in ('vb', 'vn'):
            return a[0] in ('vb', 'vn')
        return eng.base(a) != eng.base(b) and (self.fresh(eng.base(a)) or self.fresh(eng.base(b)))

    def frozen_store(self, eng, st, inst, b):
        """slices are only ever set in an object that was just made"""
        self.rep.check(b is not None and self.fresh(eng.base(b)), '%s:%s' % (self.f.name, 'slice'),
                       '%s: %s: the part of the data a vector stands for is changed after the vector was made' % (inst.loc(), self.f.name))

    @staticmethod
    def root(addr, off):
        if off == 0:
            return addr
        if addr[0] == 'off' and addr[2] == off:
            return addr[1]
        if addr[0] == 'off':
            return ('off', addr[1], addr[2] - off)
        return None

    def stable(self, eng, t):
        """the term names the same value as long as the function runs"""
        for x in engine._leaves(t):
            if x[0] == 'i':
                i = self.byidx.get(x[1])
                if i is None or any(i.bb in body for body in eng.loops.values()):
                    return False
            elif x[0] not in ('a', 'g', 'al', 'k', 'f'):
                return False
        return True

    def cell(self, eng, st, b, off, ty):
        a = eng.off(b, off)
        t = st.mem.get((a, ty))
        return t

    def after_branch(self, eng, st, cond, truth):
        """what is at least as large, as a signed number, as something that is not negative, is not negative"""
        if cond[0] == 'icmp' and cond[2] in self.kinds and cond[1] in ('eq', 'ne') and cond[3] == ('k', 0):
            k = (cond[2], (cond[1] == 'ne') == truth)
            if k[1] and k not in st.ps:
                st.ps = tuple(sorted(st.ps + (k,)))
        if cond[0] != 'icmp' or cond[1][0] != 's':
            return
        _, p, a, b, w = cond
        if not truth:
            p = engine.NEG[p]
        if p in ('slt', 'sle'):
            a, b = b, a
        lo = eng.srange(st, b, w)[0]
        if lo >= 0 and a[0] != 'k':
            eng.upd(st, a, slo=lo, ulo=lo, uhi=(1 << (w - 1)) - 1, w=w)

    def feasible(self, eng, st, cond, truth):
        if cond[0] != 'icmp' or not any(x[0] in ('sub', 'add', 'trunc') for x in cond[2:4]):
            return True
        _, p, a, b, w = cond
        if not truth:
            p = engine.NEG[p]
        L = self.lin(eng, st)
        ea, eb = L.u(a, w), L.u(b, w)
        if p[0] == 's' and (L.rng(ea)[1] >= 1 << (w - 1) or L.rng(eb)[1] >= 1 << (w - 1)):
            return True
        d = L.add(ea, eb, -1)
        if p in ('ult', 'slt'):
            return not L.prove(d, 2)
        if p in ('ugt', 'sgt'):
            return not L.prove({k: -v for k, v in d.items()}, 2)
        if p in ('ule', 'sle'):
            return not L.prove(L.add(d, L.const(-1)), 2)
        if p in ('uge', 'sge'):
            return not L.prove(L.add({k: -v for k, v in d.items()}, L.const(-1)), 2)
        if p == 'ne':
            return bool(d)
        return True

    # ---- obligations
    def access(self, eng, st, inst, addr, ty):
        if not self.objs:
            return
        L = self.lin(eng, st)
        e = L.u(addr, 64)
        roots = [t for t in e if t in self.objs]
        if len(roots) != 1 or e[roots[0]] != 1:
            return
        o = self.objs[roots[0]]
        rest = {t: c for t, c in e.items() if t != roots[0]}
        size = self.an.prog.mod.size_of(ty) or 0
        self.judge(eng, st, inst, L, o, rest, size)

    def judge(self, eng, st, inst, L, o, rest, size, ends=False):
        """rest: offset in units of 1 (size bytes are used there)"""
        ok = False
        n = None
        for n in self.bounds_of(eng, st, L, o, o[2] if o[0] == 'vn' and len(o) > 2 else size):
            if L.prove(L.add(L.add(n, L.const(size), -1), rest, -1)):
                ok = True
                break
        if n is not None:
            n = show(n)
        lo = ends or L.rng(rest)[0] >= 0 or L.prove(rest)
        self.verdict(eng, st, inst, ok, lo, rest, n, size)

    def bounds_of(self, eng, st, L, o, size):
        """how much is there: expressions in the unit the offset is in; an element takes size units"""
        an = self.an
        if o[0] in ('vn', 'vb'):
            for ti, tn in self.bound.get(o[1], ()) if o[0] == 'vn' else ():
                yield {k: v * size for k, v in L.add({ti: 1}, {tn: 1}).items()}
            for (x, ty), t in st.mem.items():
                if ty == 'low' and x[1] == o[:2]:
                    yield {k: v * size for k, v in L.u(t, 32).items()}
        elif o[0] in an.count:
            c = an.count[o[0]]
            n = self.cell(eng, st, o[1], c[0], c[1])
            if n is not None:
                yield {k: v * size for k, v in L.u(n, width(c[1])).items()}
            for (x, ty), t in st.mem.items():
                if ty == 'low' and x[1] == o[1] and t != n:
                    yield {k: v * size for k, v in L.u(t, width(c[1])).items()}

    def verdict(self, eng, st, inst, hi, lo, rest, n, size):
        k = inst.idx
        old = self.done.get(k, (True, True, None))
        self.done[k] = (old[0] and hi, old[1] and lo, old[2] or (None if hi and lo else '%s n=%s size=%s: %s' % (show(rest), n, size, eng.trail_str(st))), inst)

    def halved(self, inst):
        """the position is computed by dividing: the middle of an interval"""
        seen, todo = set(), [o for o in (inst.ops[1:] if inst.op == 'call' else inst.ops[-1:])]
        while todo:
            v = todo.pop()
            if id(v) in seen or v.kind != 'inst' or v.op in ('load', 'call', 'phi'):
                continue
            seen.add(id(v))
            if v.op in ('sdiv', 'udiv', 'lshr', 'ashr'):
                return True
            todo.extend(v.ops)
        return False

    def call(self, eng, st, inst, args):
        n = strip_dot(inst.cname() or '')
        an = self.an
        self.needs(eng, st, inst, n, args)
        if an.a11.runs_user(inst):
            for k in [k for k in st.mem if (x_low(k) if k[1] == 'low' else eng.base(k[0])[0] != 'al' and not (k in self.plain and eng.const_of(st, st.mem[k], 32) == 0))]:
                del st.mem[k]
        elif an.shrinks(inst):
            for k in [k for k in st.mem if k[1] == 'low' and x_low(k) and not self.other(eng, st, k[0][1], args)]:
                del st.mem[k]
        if n in ('PyObject_TypeCheck', 'PyType_IsSubtype', 'Py_IS_TYPE'):
            # the same object is asked the same question: the same answer
            t = ('a', '%s%r' % (n, tuple(args)))
            if len(args) > 1 and args[1][0] == 'g' and args[1][1] in an.types and self.stable(eng, args[0]):
                self.kinds[t] = tuple(args[:2])
                for k, v in st.ps:
                    # and no object is of two types of ours
                    o = self.kinds.get(k)
                    if v and o and o[0] == args[0] and o[1] != args[1] and o[1][0] == 'g' == args[1][0]:
                        return [(st, ('k', 0))]
                if (t, True) in st.ps:
                    return [(st, ('k', 1))]
                return [(st, t)]
            return None
        if n in COUNT:
            t = eng.fresh(st, inst)
            self.aw[t] = 32
            st.mem[(('low', (COUNT[n], args[1]), inst.idx), 'low')] = t
            return [(st, t)]
        if n.startswith('pointless_reader_vector_') and n[24:] in ESIZE and inst.ty == 'ptr':
            t = eng.fresh(st, inst)
            self.objs[t] = ('vn', args[1], ESIZE[n[24:]])
            self.aw[t] = 64
            return [(st, t)]
        return None

    def needs(self, eng, st, inst, n, args):
        """what a call requires of its arguments"""
        if n in ('pointless_dynarray_item_at', 'pointless_dynarray_swap', 'pointless_dynarray_pop'):
            p = self.paths.of(inst.ops[0])
            if p[0][0] == 'as' and (p[0][2], p[1]) in self.an.data:
                b = self.root(args[0], p[1])
                if b is None:
                    return
                L = self.lin(eng, st)
                if n.endswith('pop'):
                    if not any(inst.bb in body for body in eng.loops.values()):
                        self.judge(eng, st, inst, L, (p[0][2], b), {}, 1)
                    return
                for a in args[1:]:
                    self.judge(eng, st, inst, L, (p[0][2], b), L.u(a, 64), 1)
        elif n in ('bm_is_set_', 'bm_set_', 'bm_reset_'):
            self.at(eng, st, inst, args[0], args[1], bits=True)
        elif n in ('pointless_reader_bitvector_is_set', 'pointless_reader_vector_value_case'):
            L = self.lin(eng, st)
            args = args[len(args) - 3:]     # (the result may be returned through a pointer that comes first)
            o = ('vb' if n.endswith('is_set') else 'vn', args[1])
            if args[1][0] == 'al' and not any(True for _ in self.bounds_of(eng, st, L, o, 1)):
                self.copies.add((self.f, inst))
                return
            self.judge(eng, st, inst, L, o, L.u(args[2], 32), 1)
        elif n.startswith('pointless_create_vector_') and n.endswith('_owner') and len(args) >= 3:
            self.at(eng, st, inst, args[1], args[2], size=ESIZE.get(n[24:-6]))
        elif n.startswith('llvm.memcpy') or n == 'memcpy':
            for a in args[:2]:
                self.at(eng, st, inst, a, args[2], size=1)
        elif n in self.an.contracts and len(args) > max(self.an.contracts[n]):
            self.contract(eng, st, inst, n, args)

    def at(self, eng, st, inst, ptr, n, bits=False, size=None):
        """n elements (or the n-th bit) at ptr"""
        L = self.lin(eng, st)
        e = L.u(ptr, 64)
        roots = [t for t in e if t in self.objs]
        if len(roots) != 1 or e[roots[0]] != 1:
            return
        o = self.objs[roots[0]]
        rest = {t: c for t, c in e.items() if t != roots[0]}
        if bits and self.grows_bits:
            return
        if bits:
            self.judge(eng, st, inst, L, o, L.add(L.u(n, 64), rest, 8), 1)
            return
        if size is None:
            return
        k = L.u(n, 64)
        if o[0] in ('PyPointlessBitvector', 'PyPointlessPrimVector'):
            self.rep.count('copies of whole storage, not judged')
            return
        rest = L.add(rest, {t: c * size for t, c in k.items()})
        # the end of what is read is not after the end of what there is
        es = self.esize(o, size)
        self.judge(eng, st, inst, L, o, L.add(rest, L.const(-es)), es, True)

    @staticmethod
    def esize(o, size):
        return o[2] if o[0] == 'vn' and len(o) > 2 else size

    def contract(self, eng, st, inst, n, args):
        """the part handed on lies inside a part known to exist"""
        c = self.an.contracts[n]
        L = self.lin(eng, st)
        i, k = L.u(args[c[1]], 32), L.u(args[c[2]], 32)
        end = L.add(i, k)
        cand = [L.add({ti: 1}, {tn: 1}) for ps in self.bound.values() for ti, tn in ps]
        cand += [L.u(t, 32) for (x, ty), t in st.mem.items() if ty == 'low' and x[1][0] == 'vn']
        ok = L.prove({t: -v for t, v in k.items()}) or any(L.prove(L.add(b, end, -1)) for b in cand)
        self.verdict(eng, st, inst, ok, True, end, [show(b) for b in cand], 'part')

    def other(self, eng, st, b, args):
        """the array handed to a call is not the one in b: one of them was made by this very call of the function"""
        if not args:
            return False
        x = eng.base(args[0])
        return x != eng.base(b) and any(self.fresh(t) for t in (x, eng.base(b)))

    def fresh(self, t):
        if t[0] == 'al':
            return True
        if t[0] != 'i':
            return False
        m = self.byidx
        i = m.get(t[1])
        if i is None or i.op != 'call':
            return False
        return strip_dot(i.cname() or '') in a11.FRESH | {'PyPointlessVector_new'} or i.cname() is None and (self.an.a11.slotcall(i) or self.an.allocslot(i, self.paths))


class A:
    def __init__(self, rep, prog):
        self.rep, self.prog, self.mod = rep, prog, prog.mod
        self._paths = {}
        self.mr = ModRef(prog)
        self.a11 = a11.A(Null(), prog, '')
        self.a11.summaries()
        self.a11.user_code()
        self.fields()
        self.shrinkers()
        # the sort hands positions to the functions it was given
        self.given = set()
        # and so do users of the C interface of the extension
        for g in self.mod.globals.values():
            if 'CAPI' in g.name and g.init is not None:
                self.given |= {x for x in (getattr(g.init, 'elems', None) or []) if x.kind == 'func' and not x.decl and len(x.args) == 2 and x.args[1].ty in ('i32', 'i64')}
        for f in self.mod.defined():
            for i in f.insts():
                for x in i.ops:
                    if x is not i.callee and x.kind == 'func' and not x.decl and len(x.args) >= 3 and [a.ty for a in x.args[:2]] == ['i32', 'i32']:
                        self.given.add(x)

    def fields(self):
        def offs(n):
            if n not in self.mod.fieldnames:
                raise AnalysisBroken('structure %s not found' % n)
            return {n: o // 8 for o, n, _, _ in self.mod.fieldnames[n]}
        pv, dyn, bv, fv = offs('PyPointlessPrimVector'), offs('pointless_dynarray_t'), offs('PyPointlessBitvector'), offs('PyPointlessVector')
        arr = pv['array']
        self.alloc = offs('_typeobject')['tp_alloc']
        self.bits = bv['primitive_bits']
        self.data = {('PyPointlessPrimVector', arr + dyn['_data']), ('PyPointlessBitvector', self.bits)}
        # kind -> (offset of the number of items, its type, offset of the number of bytes there is room for)
        self.count = {'PyPointlessPrimVector': (arr + dyn['n_items'], 'i64'),
                      'PyPointlessBitvector': (bv['primitive_n_bits'], 'i32', bv['primitive_n_bytes_alloc'])}
        self.counts = {('PyPointlessPrimVector', arr + dyn['n_items']): ('i64', 32), ('PyPointlessBitvector', bv['primitive_n_bits']): ('i32', 32),
                       ('PyPointlessBitvector', bv['primitive_n_bytes_alloc']): ('i32', 32)}
        self.frozen = {('PyPointlessVector', fv['slice_i']): 'slice_i', ('PyPointlessVector', fv['slice_n']): 'slice_n'}
        self.voff = fv['v']
        self.types = {g.name for g in self.mod.globals.values() if g.init is not None}
        self.infile = ('PyPointlessBitvector', bv['is_pointless'])
        self.contracts = {'_pypointless_vector_str': (1, 3, 4), '_pypointless_str_rec': (1, 3, 4), 'pointless_hash_reader_vector_32': (1, 2, 3),
                          'PyPointlessVector_New': (1, 2, 3)}

    def allocslot(self, i, paths):
        c = i.callee
        return c.kind == 'inst' and c.op == 'load' and paths.of(c.ops[0])[0][0] == 'g' and paths.of(c.ops[0])[1] == self.alloc

    def makes_room(self, f):
        """the function (with what it calls) enlarges the storage of a bitvector"""
        c = self.count['PyPointlessBitvector']
        re = st = False
        for i in f.insts():
            if i.op == 'call':
                re = re or strip_dot(i.cname() or '') in ('pointless_realloc', 'realloc')
            elif i.op == 'store':
                p = self.paths(f).of(i.ops[1])
                st = st or p[0][0] == 'as' and (p[0][2], p[1]) == ('PyPointlessBitvector', c[2])
        return re and st

    def grows_store(self, inst):
        v = inst.ops[0]
        if v.kind != 'inst' or v.op != 'add':
            return False
        for k in (0, 1):
            a, b = v.ops[k], v.ops[1 - k]
            if a.kind == 'inst' and a.op == 'load' and self.paths(inst.fn).of(a.ops[0]) == self.paths(inst.fn).of(inst.ops[1]):
                return b.kind != 'int' or 0 <= b.n < 1 << 31
        return False

    def shrinkers(self):
        """functions that may lower the number of items of some growable array"""
        self.shr = set()
        for f in self.mod.defined():
            for i in f.insts():
                if i.op != 'store':
                    continue
                c = self.a11.dyncell(i.ops[1])
                if c and c[0] == 'n_items' and not self.grows(i.ops[0]):
                    self.shr.add(f)
                elif f.file.startswith('python/'):
                    p = self.paths(f).of(i.ops[1])
                    if p[0][0] == 'as' and (p[0][2], p[1]) in self.counts and not self.grows_store(i):
                        self.shr.add(f)
        ch = True
        while ch:
            ch = False
            for f in self.mod.defined():
                if f not in self.shr and any(i.op == 'call' and self.shrinks(i) for i in f.insts()):
                    self.shr.add(f)
                    ch = True

    def grows(self, v):
        if v.kind != 'inst' or v.op != 'add':
            return False
        for k in (0, 1):
            a, b = v.ops[k], v.ops[1 - k]
            if a.kind == 'inst' and a.op == 'load' and (self.a11.dyncell(a.ops[0]) or ('',))[0] == 'n_items':
                return b.kind != 'int' or 0 <= b.n < 1 << 31
        return False

    def shrinks(self, i):
        if i.callee.kind == 'func':
            f = self.mod.funcs.get(i.callee.name)
            return f in self.shr
        return any(t in self.shr for t in self.prog.targets(i))

    def paths(self, f):
        if f not in self._paths:
            self._paths[f] = Paths(self.mod, f)
        return self._paths[f]

    def all(self):
        fs = []
        for f in self.prog.funcs:
            if not f.file.startswith('python/') or f.name in self.prog.only_inlined or f.name in self.prog.prims:
                continue
            if not self.relevant(f):
                continue
            if f in self.given:
                self.rep.count('functions whose positions are given by the sort or the user of the C interface, not judged')
                continue
            if self.makes_room(f):
                self.rep.count('functions that make room for bits: what they set is not judged')
            fs.append(f)
        self.rep.count('functions', len(fs))
        # the functions are independent of each other
        fs.sort(key=lambda f: -sum(1 for _ in f.insts()))
        n = min(8, os.cpu_count() or 1)
        with multiprocessing.get_context('fork').Pool(n, initializer=_share, initargs=(self, fs)) as pool:
            for viol, oblig, disch, counts, err in pool.imap_unordered(_one, range(len(fs))):
                if err:
                    raise AnalysisBroken(err)
                for k, m in viol:
                    self.rep.bad(k, m)
                self.rep.oblig += oblig - len(viol)
                self.rep.disch += disch
                for k, c in counts.items():
                    self.rep.count(k, c)
        self.rep.viol.sort()

    def one(self, f):
        last = None
        for kmax in (16, 48, 4, 2):
            if kmax < 16 and last is not None:
                break
            cl = Bounds(self, f)
            e = Eng(self.mod, f, cl, self.mr, kmax=kmax, maxsteps=60000)
            e.run()
            if e.truncated:
                continue
            last = cl
            if all(hi and lo for hi, lo, _, _ in cl.done.values()):
                break
        if last is None:
            raise AnalysisBroken('%s: too many states' % f.name)
        for hi, lo, why, inst in last.done.values():
            if not (hi and lo) and last.halved(inst):
                self.rep.count('positions found by halving an interval, not judged')
                continue
            self.rep.count('accesses')
            self.rep.check(hi and lo, '%s:%s' % (f.name, self.where(inst)), '%s: %s: %s not bounded: %s' % (inst.loc(), f.name, 'index' if not hi else 'lower end', why))

    @staticmethod
    def where(inst):
        return inst.cname() or 'element' if inst.op == 'call' else 'element'

    def relevant(self, f):
        for i in f.insts():
            if i.op in ('load', 'store'):
                p = self.paths(f).of(i.ops[0 if i.op == 'load' else 1])
                if p[0][0] == 'as' and ((p[0][2], p[1]) in self.data or (p[0][2], p[1]) in self.counts or (p[0][2], p[1]) in self.frozen):
                    return True
            if i.op == 'call' and strip_dot(i.cname() or '') in PRIM | set(self.contracts):
                return True
        return False


def _share(an, fs):
    global SHARED
    SHARED = an, fs


def _one(k):
    an, fs = SHARED
    an.rep.viol, an.rep.oblig, an.rep.disch, an.rep.counts = [], 0, 0, {}
    try:
        an.one(fs[k])
    except AnalysisBroken as e:
        return [], 0, 0, {}, str(e)
    r = an.rep
    return r.viol, r.oblig, r.disch, r.counts, None


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('every access of the extension to the items of a primitive vector, to the elements of a vector of a file and to the bits of a bitvector '
                'has, on every path, a position that is not negative and below the number of items the object has at that moment: what the path '
                'compared bounds the position (linear entailment over the comparisons, no solver)')
    rep.assumptions = ['vectors have less than 2**32 items', 'the sort hands the positions 0..n-1 to the functions it was given',
                       'a bitvector has room for its bits (the arithmetic of its growth is not judged)',
                       'what a vector of a file says about its number of elements was checked when the file was opened (A04)']
    prog = Prog(ndebug=True)
    A(rep, prog).all()
    rep.floor('functions', 60)
    rep.floor('accesses', 300)
