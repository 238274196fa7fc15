"""Loops that must do something for every index: per-iteration flags over counting loops.

An event recorded for the current value of a counter marks the iteration; a back edge without the mark records a miss; leaving the
loop with the counter proven >= the bound and no miss covers [0, bound).  Loops of another shape (pointer walks, downward counts)
are not judged."""
from engine import Client, width


def strip(t):
    while t[0] in ('zext', 'sext', 'trunc'):
        t = t[1]
    return t


class Forall(Client):
    each = ()

    def bound(self, eng, st, name):
        """linear bound of name, or None"""
        raise NotImplementedError

    def lin(self, eng, st):
        raise NotImplementedError

    def setup(self, eng):
        self.shape = {}         # name -> {'counter', 'other'}
        self.counters = {}      # header -> [phi, starts at zero and counts by one]
        for h, body in eng.loops.items():
            for i in h.insts:
                if i.op != 'phi':
                    break
                step = start = True
                for v, p in i.incoming:
                    if p in body:
                        step &= v.kind == 'inst' and v.op == 'add' and v.ops[0] is i and v.ops[1].kind == 'int' and v.ops[1].n == 1
                    else:
                        start &= v.kind == 'int' and v.n == 0
                if step:
                    self.counters.setdefault(h, []).append((i, start))
        self.heads = list(eng.loops)

    def event(self, eng, st, inst, name, idx):
        idx = strip(idx)
        hit = False
        for h, body in eng.loops.items():
            if inst.bb in body:
                for t in self.indices(eng, st, h):
                    if t == idx:
                        hit = True
                        st.ps = st.ps + (('it', name, h.name),) if ('it', name, h.name) not in st.ps else st.ps
        self.shape.setdefault(name, set())
        if hit or idx[0] != 'k':
            self.shape[name].add('counter' if hit else 'other')

    def within(self, eng, st, inst, t, bound, what):
        """the counter was compared with the bound, but only to be at most equal: one round too many"""
        if bound is None or not any(strip(st.env[i]) == t for cs in self.counters.values() for i, start in cs if start and i in st.env):
            return
        L = self.lin(eng, st)
        L.facts()
        e = L.add(bound, L.u(t, 32), -1)
        if not L.prove(L.add(e, L.const(-1))) and L.prove(e):
            for k, f in st.facts.items():
                if len(f) > 4 and f[4] and 0 in f[4] and all(x in repr(k) for x in [repr(t)]):
                    return
            self.v('behind-the-end', what, eng, st, inst)

    def indices(self, eng, st, h):
        """terms that count the rounds of a loop"""
        out = [st.env[i] for i, start in self.counters.get(h, ()) if i in st.env]
        return [strip(t) for t in out] + [('it', h.insts[0].idx)]

    def iteration(self, eng, st, src, h, name):
        """an event that is a matter of the state at the back edge"""
        return False

    def edge(self, eng, st, src, dst):
        super().edge(eng, st, src, dst)
        if src is None:
            return
        body = eng.loops.get(dst)
        if body is not None and src in body:
            ps = set(st.ps)
            for n in self.each:
                if ('it', n, dst.name) in ps:
                    ps.discard(('it', n, dst.name))
                else:
                    ps.add(('miss', n, dst.name))
            st.ps = tuple(sorted(ps, key=repr))
        for h, bd in eng.loops.items():
            if src in bd and dst not in bd:
                ps = set(st.ps)
                L = None
                cs = [(i, st.env[i], width(i.ty)) for i, start in self.counters.get(h, ()) if start and i in st.env]
                for i in h.insts:
                    if i.op != 'phi':
                        break
                    if i.ty == 'ptr' and i in st.env:
                        t = ('it', h.insts[0].idx) if st.env[i] == ('phi', i.idx) else ('k', 0)
                        cs.append((i, t, 64))
                        break
                for i, t, w in cs:
                    for n in self.each:
                        if ('miss', n, h.name) in ps or ('cov', n) in ps:
                            continue
                        L = L or self.lin(eng, st)
                        b = self.bound(eng, st, n)
                        if b is None:
                            continue
                        L.facts()
                        if L.prove(L.add(L.u(t, w), b, -1)):
                            ps.add(('cov', n))
                ps = {x for x in ps if not (x[0] in ('it', 'miss') and x[2] == h.name)}
                st.ps = tuple(sorted(ps, key=repr))

    def covered(self, eng, st, name):
        """True, False or None: not judged"""
        if ('cov', name) in st.ps:
            return True
        b = self.bound(eng, st, name)
        if b is not None:
            L = self.lin(eng, st)
            L.facts()
            if L.prove({t: -c for t, c in b.items()}):
                return True
        return None if 'other' in self.shape.get(name, ()) else False
