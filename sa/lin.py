"""Linear integer reading of terms: a term is an exact integer expression where no wrap-around is possible
(by ranges or by a comparison already made on the path); entailment of linear inequalities from path facts."""
from engine import width, sx, _leaves


def step(eng, i, body):
    """the constant a loop counter changes by, in bytes for pointers, or 0"""
    c = 0
    for v, p in i.incoming:
        if p not in body:
            continue
        if v.kind != 'inst' or v.ops[0] is not i or v.op not in ('add', 'gep') or len(v.ops) != 2 or v.ops[1].kind != 'int':
            return 0
        n = sx(v.ops[1].n, width(v.ops[1].ty) or 64)
        if v.op == 'gep':
            sz = eng.mod.size_of(v.srcty)
            if not sz:
                return 0
            n *= sz
        if c and c != n:
            return 0
        c = n
    return c


class Lin:
    """linear expressions are dicts atom -> coefficient, None -> constant"""

    def __init__(self, eng, st, aw=None, nowrap=()):
        self.eng, self.st = eng, st
        self.aw = aw or {}
        self.extra = []             # side facts: expressions known >= 0
        self.nowrap = nowrap        # widths in which wrap-around is assumed impossible
        self.memo = {}
        self._facts = None
        self.done = set()

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + k * c
            if r[t] == 0:
                del r[t]
        return r

    @staticmethod
    def const(n):
        return {None: n} if n else {}

    def rng(self, e):
        lo = hi = 0
        for t, c in e.items():
            if t is None:
                lo += c
                hi += c
                continue
            a, b = self.arange(t)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def arange(self, t):
        w = self.aw.get(t, 64)
        if t[0] == 'q':
            return t[3], t[4]
        if t[0] == 'it':
            return 0, 1 << 62
        return self.eng.urange(self.st, t, w)

    def atom(self, t, w):
        if self.aw.get(t, 0) < w:
            self.aw[t] = w
        return {t: 1}

    def u(self, t, w):
        """unsigned value of t (w bits wide)"""
        key = (t, w)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = {t: 1}     # recursion stop
            r = self.memo[key] = self._u(t, w)
        return r

    def fits(self, e, w):
        lo, hi = self.rng(e)
        return lo >= 0 and hi < (1 << w)

    def _u(self, t, w, raw=False):
        o = t[0]
        if o == 'k':
            return self.const(t[1] & ((1 << w) - 1))
        st, eng = self.st, self.eng
        c = eng.const_of(st, t, w)
        if c is not None and not raw:
            return self.const(c & ((1 << w) - 1))
        if o == 'zext':
            return self.u(t[1], t[2])
        if o == 'sext':
            e = self.u(t[1], t[2])
            lo, hi = self.rng(e)
            if hi < 1 << (t[2] - 1):
                return e
        if o == 'trunc':
            e = self.u(t[1], t[2])
            if self.fits(e, w):
                return e
            return self.atom(t, w)
        if o == 'off':
            e = self.add(self.u(t[1], 64), self.const(t[2]))
            return e
        if o == 'gep':
            e = self.u(t[1], 64)
            srcty = t[2]
            sz = eng.mod.size_of(srcty)
            if sz is not None and len(t[3]) == 1:
                return self.add(e, self.s(t[3][0], 64), sz)
            return self.atom(t, 64)
        if o == 'add':
            a, b = t[1], t[2]
            e = self.add(self.u(a, w), self.s(b, w) if b[0] == 'k' else self.u(b, w))
            if self.fits(e, w) or w in self.nowrap:
                return e
            if b[0] == 'k' and sx(b[1], w) < 0:
                if self.lo(e) >= 0:
                    return e
            elif self.noover(t, a, b, w):
                return e
            return self.atom(t, w)
        if o == 'sub':
            e = self.add(self.u(t[1], w), self.u(t[2], w), -1)
            if self.fits(e, w) or w in self.nowrap or self.rel(('ule', 'ult', 'eq'), t[2], t[1]) or self.lo(e) >= 0:
                return e
            return self.atom(t, w)
        if o in ('mul', 'shl'):
            a, b = t[1], t[2]
            if o == 'mul' and a[0] == 'k':
                a, b = b, a
            n = eng.const_of(st, b, w)
            if n is None and o == 'mul':
                a, b = b, a
                n = eng.const_of(st, b, w)
            if n is not None:
                n = (n & ((1 << w) - 1)) if o == 'mul' else (1 << n if 0 <= n < w else None)
            if n is not None:
                e = {k: v * n for k, v in self.u(a, w).items() if v * n}
                if self.fits(e, w) or w in self.nowrap:
                    return e
                return self.atom(t, w)
        if o in ('udiv', 'lshr', 'sdiv', 'ashr'):
            n = eng.const_of(st, t[2], w)
            if n is not None and n > 0:
                if o in ('lshr', 'ashr'):
                    n = 1 << n
                e = self.u(t[1], w)
                lo, hi = self.rng(e)
                if o in ('udiv', 'lshr') or hi < 1 << (w - 1):
                    return self.quot(e, n)
        if o in ('urem', 'srem', 'and'):
            n = eng.const_of(st, t[2], w)
            if n is not None and n > 0 and (o != 'and' or (n & (n + 1)) == 0):
                if o == 'and':
                    n += 1
                e = self.u(t[1], w)
                lo, hi = self.rng(e)
                if o != 'srem' or hi < 1 << (w - 1):
                    return self.add(e, self.quot(e, n), -n)
        if o == 'icmp':
            return self.atom(t, 1)
        if o == 'phi':
            i = self.ind(t)
            if i is not None and i[0].ty == 'ptr':
                # a pointer that moves by a constant: its start plus a multiple of the number of steps
                return self.add(self.u(i[2], 64), self.iter(i[0].bb), i[1])
        return self.atom(t, w)

    def ind(self, t):
        """(phi, step, start term) of a loop counter that was entered with a known start"""
        for x in self.st.ps or ():
            if x[0] == 'ind' and x[1] == t[1]:
                for h in self.eng.loops:
                    for i in h.insts:
                        if i.op != 'phi':
                            break
                        if i.idx == t[1]:
                            c = step(self.eng, i, self.eng.loops[h])
                            return (i, c, x[2]) if c else None
        return None

    def iter(self, h):
        """the number of times the loop went round: its counter if it has one"""
        body = self.eng.loops[h]
        for i in h.insts:
            if i.op != 'phi':
                break
            if i.ty != 'ptr' and step(self.eng, i, body) == 1 and all(v.kind == 'int' and v.n == 0 for v, p in i.incoming if p not in body) \
                    and i in self.st.env:
                return self.u(self.st.env[i], width(i.ty))
        return {('it', h.insts[0].idx): 1}

    def _induct(self, out):
        """bounds of loop counters: between their start and the bound of the loop's test"""
        eng, st = self.eng, self.st
        for x in st.ps or ():
            if x[0] != 'ind':
                continue
            t = ('phi', x[1])
            r = self.ind(t)
            if r is None or st.env.get(r[0]) != t:
                continue
            i, c, start = r
            w = width(i.ty) or 64
            e = self.u(t, w)
            b = i.bb.insts[-1]
            cond = b.ops[0] if b.op == 'br' and b.ops else None
            if c < 0 or cond is None or cond.kind != 'inst' or cond.op != 'icmp':
                continue
            body = eng.loops[i.bb]
            for k in (0, 1):
                y, n = cond.ops[k], cond.ops[1 - k]
                while y.kind == 'inst' and y.op in ('zext', 'sext'):
                    y = y.ops[0]
                if y is not i or (n.kind == 'inst' and n.bb in body and n.bb is not i.bb):
                    continue
                pred = cond.pred if k == 0 else {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt'}.get(cond.pred, cond.pred)
                if pred not in ('ne', 'ult', 'slt') or b.succs[0] not in body:
                    continue
                if n.kind == 'inst' and n not in st.env:
                    continue
                nt = eng.ev(st, n)
                if any(l[0] not in ('a', 'k') for l in _leaves(nt)):
                    continue
                nw = width(cond.ops[0].ty) or 64
                ne, se = self.u(nt, nw), self.u(start, w)
                d = self.add(ne, se, -1)
                if pred == 'ne' and (self.prove(d, 2) is False or any(v % c for v in d.values())):
                    continue
                if pred != 'ne' and (c != 1 or not self.prove(d, 2)):
                    continue
                rest = self.add(ne, e, -1)
                if pred == 'ne' and (('ne', t, nt) in st.rels or ('ne', nt, t) in st.rels):
                    rest = self.add(rest, self.const(-c))
                if all(v % c == 0 for v in rest.values()):
                    rest = {q: v // c for q, v in rest.items()}
                out.append(rest)

    def s(self, t, w):
        if t[0] == 'k':
            return self.const(sx(t[1], w))
        if t[0] == 'sext' :
            return self.s(t[1], t[2])
        if t[0] == 'add':
            lo, hi = self.eng.srange(self.st, t[1], w)
            if t[2][0] == 'k':
                n = sx(t[2][1], w)
                if -(1 << (w - 1)) <= lo + n and hi + n < (1 << (w - 1)):
                    return self.add(self.s(t[1], w), self.const(n))
        return self.u(t, w)

    def quot(self, e, n):
        if n == 1:
            return e
        if set(e) <= {None}:
            return self.const(e.get(None, 0) // n)
        key = tuple(sorted(((repr(k), v) for k, v in e.items())))
        lo, hi = self.rng(e)
        q = ('q', key, n, max(0, lo // n), max(0, hi // n))
        if q not in self.done:
            self.done.add(q)
            # n*q <= e <= n*q + n-1
            self.extra.append(self.add(e, {q: n}, -1))
            self.extra.append(self.add(self.add({q: n}, self.const(n - 1)), e, -1))
        return {q: 1}

    def lo(self, e):
        """a lower bound using one level of path facts"""
        return 0 if self.prove(e, 2) else self.rng(e)[0]

    def rel(self, preds, a, b):
        sw = {'ule': 'uge', 'ult': 'ugt', 'eq': 'eq', 'uge': 'ule', 'ugt': 'ult'}
        for p in preds:
            if (p, a, b) in self.st.rels or (sw[p], b, a) in self.st.rels:
                return True
        return False

    def noover(self, t, a, b, w):
        """a comparison on the path excludes that t = a + b wrapped"""
        for x in (a, b):
            if self.rel(('uge', 'ugt'), t, x):
                return True
        f = self.st.facts.get(t)
        if f is not None and b[0] == 'k' and f[2] >= (b[1] & ((1 << w) - 1)):
            return True         # t = a + n (mod 2^w) and t >= n
        m = (1 << w) - 1
        for x, y in ((a, b), (b, a)):
            # x <= MAX - y
            s = ('sub', ('k', -1), y)
            if self.rel(('ule', 'ult'), x, s):
                return True
        return False

    def facts(self):
        if self._facts is None:
            self._facts = []
            self._collect()
            old, self._facts, self.memo = self._facts, [], {}
            self._facts = old
            new = self._collect([])
            self._facts = new
            self.memo = {}
            ind = []
            self._induct(ind)
            self._facts = new + ind
            self.memo = {}
        return self._facts

    def _collect(self, out=None):
        out = self._facts if out is None else out
        if True:
            for p, a, b in self.st.rels:
                w = max(self.width(a), self.width(b))
                if w == 0:
                    w = 64
                if p[0] == 's':
                    ea, eb = self.u(a, w), self.u(b, w)
                    if self.rng(ea)[1] >= 1 << (w - 1) or self.rng(eb)[1] >= 1 << (w - 1):
                        continue
                else:
                    ea, eb = self.u(a, w), self.u(b, w)
                d = self.add(eb, ea, -1)        # b - a
                if p in ('ule', 'sle'):
                    out.append(d)
                elif p in ('ult', 'slt'):
                    out.append(self.add(d, self.const(-1)))
                elif p in ('uge', 'sge'):
                    out.append({k: -v for k, v in d.items()})
                elif p in ('ugt', 'sgt'):
                    out.append(self.add({k: -v for k, v in d.items()}, self.const(-1)))
                if p in ('uge', 'sge', 'ule', 'sle'):
                    x, y = (a, b) if p in ('uge', 'sge') else (b, a)
                    if self.counter(x, y):
                        out.append(self.add(self.u(y, w), self.u(x, w), -1))
                if p == 'eq':
                    out.append(d)
                    out.append({k: -v for k, v in d.items()})
            for t, f in list(self.st.facts.items()):
                if t[0] in ('add', 'sub', 'mul', 'shl', 'udiv', 'urem', 'and', 'lshr', 'zext', 'trunc'):
                    w = self.width(t)
                    if not w:
                        continue
                    e = self._u(t, w, True)
                    if e == {t: 1}:
                        continue
                    if f[2] > 0:
                        out.append(self.add(e, self.const(-f[2])))
                    if f[3] < (1 << w) - 1:
                        out.append(self.add(self.const(f[3]), e, -1))
                    for n in f[4]:
                        if n == 0 and f[2] <= 0:
                            out.append(self.add(e, self.const(-1)))
        return out

    def counter(self, x, n):
        """x counts up from 0 by one while it is below n, which does not change: it never exceeds n"""
        while x[0] == 'zext':
            x = x[1]
        if x[0] != 'phi' or any(l[0] not in ('a', 'k') for l in _leaves(n)):
            return False
        for b in self.eng.fn.blocks:
            body = self.eng.loops.get(b)
            if body is None:
                continue
            for i in b.insts:
                if i.op != 'phi' or i.idx != x[1]:
                    continue
                for v, p in i.incoming:
                    if p in body:
                        if not (v.kind == 'inst' and v.op == 'add' and v.ops[0] is i and v.ops[1].kind == 'int' and v.ops[1].n == 1):
                            return False
                    elif not (v.kind == 'int' and v.n == 0):
                        return False
                t = b.insts[-1]
                c = t.ops[0] if t.op == 'br' and t.ops else None
                if c is None or c.kind != 'inst' or c.op != 'icmp' or c.pred not in ('ult', 'ugt', 'slt', 'sgt'):
                    return False
                k = 0 if c.pred in ('ult', 'slt') else 1
                o = c.ops[k]
                while o.kind == 'inst' and o.op in ('zext', 'sext'):
                    o = o.ops[0]
                return o is i
        return False

    def width(self, t):
        o = t[0]
        if t in self.aw:
            return self.aw[t]
        if o == 'zext' or o == 'sext' or o == 'trunc':
            return t[3]
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.width(t[1]) or self.width(t[2])
        if o in ('shl', 'lshr', 'ashr'):
            return self.width(t[1])
        if o in ('off', 'gep', 'al', 'g'):
            return 64
        if o == 'i' or o == 'phi':
            return self.iw(t)
        return 0

    def iw(self, t):
        m = getattr(self.eng, '_iw', None)
        if m is None:
            m = self.eng._iw = {}
            for i in self.eng.fn.insts():
                m[i.idx] = width(i.ty) if i.ty != 'void' else 0
        return m.get(t[1], 0)

    def prove(self, e, depth=4):
        """e >= 0 on this path"""
        if self.rng(e)[0] >= 0:
            return True
        if depth == 0:
            return False
        fs = self.facts() + self.extra if self._facts is not None or depth > 2 else self.extra + self.facts_safe()
        neg = [t for t, c in e.items() if t is not None]
        seen = set()
        for f in fs:
            for t in neg:
                c = e[t]
                cf = f.get(t, 0)
                if cf == 0 or (c < 0) != (cf < 0):
                    continue
                # e = k*f + rest with k = c/cf
                if c % cf == 0:
                    k = c // cf
                    if k <= 0:
                        continue
                    r = self.add(e, f, -k)
                elif cf % c == 0:
                    # multiply e by cf/c (sign preserved, positive factor)
                    m = cf // c
                    r = self.add({x: v * m for x, v in e.items()}, f, -1)
                else:
                    continue
                key = tuple(sorted((repr(x), v) for x, v in r.items()))
                if key in seen:
                    continue
                seen.add(key)
                if len(r) > len(e) + 4:
                    continue
                if self.prove(r, depth - 1):
                    return True
        return False

    def facts_safe(self):
        return self.facts() if self._facts is not None else []


def show(e):
    out = []
    for t, c in sorted(e.items(), key=lambda x: repr(x[0])):
        n = '' if t is None else (t[1] if t[0] == 'a' and isinstance(t[1], str) else repr(t))
        out.append('%d' % c if t is None else (n if c == 1 else '%d*%s' % (c, n)))
    return ' + '.join(out) or '0'
