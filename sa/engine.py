"""Path-sensitive abstract interpretation of one LLVM function over a finite lattice.

Property-simulation style dataflow (ESP, Das et al. 2002): the abstract state is
  env   SSA value -> term          (hash-consed value numbers; constants, symbols, pure operators)
  mem   (address term, type) -> term   for cells whose content is known
  facts term -> interval           (signed and unsigned bounds, excluded constants)
  rels  set of comparisons known to hold on the path
  ps    the client's typestate
States reaching a block are kept apart while their typestate or their known constants differ, at most
KMAX per (block, typestate); beyond that they are joined.  No solver is involved: a branch is decided
only from the intervals and the recorded comparisons.  Loop-carried values are generalised at loop
headers, so the state space is finite.
"""
from collections import deque

KMAX = 10
MAXSTEPS = 60000

K0 = ('k', 0)
K1 = ('k', 1)
UNDEF = ('undef',)
INF = 1 << 80

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
       'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def width(ty):
    if ty == 'ptr':
        return 64
    if ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 0


def sx(n, w):
    if w <= 0:
        return n
    n &= (1 << w) - 1
    if n >> (w - 1) and w > 1:
        n -= 1 << w
    return n


def ux(n, w):
    return n & ((1 << w) - 1) if w > 0 else n


def depth(t):
    if not isinstance(t, tuple) or t[0] in ('k', 'a', 'i', 'g', 'f', 'al', 'undef', 'phi', 'old', 'c'):
        return 1
    return 1 + max([depth(x) for x in t[1:] if isinstance(x, tuple)] or [0])


def subterms(t, out):
    out.add(t)
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            subterms(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    subterms(y, out)


def contains(t, pred):
    if pred(t):
        return True
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                if contains(x, pred):
                    return True
            else:
                for y in x:
                    if isinstance(y, tuple) and contains(y, pred):
                        return True
    return False


def subst(t, mp):
    if t in mp:
        return mp[t]
    if t[0] in ('k', 'a', 'i', 'g', 'f', 'al', 'undef', 'phi', 'old'):
        return t
    ch = False
    out = [t[0]]
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                y = subst(x, mp)
            else:
                y = tuple(subst(z, mp) if isinstance(z, tuple) else z for z in x)
            if y is not x and y != x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else t


class State:
    __slots__ = ('env', 'mem', 'facts', 'rels', 'ps', 'ext', 'trail')

    def __init__(self):
        self.env, self.mem, self.facts, self.rels, self.ps, self.ext, self.trail = {}, {}, {}, frozenset(), None, (), None

    def copy(self):
        s = State()
        s.env, s.mem, s.facts, s.rels = dict(self.env), dict(self.mem), dict(self.facts), self.rels
        s.ps, s.ext, s.trail = self.ps, self.ext, self.trail
        return s


TOPF = (-INF, INF, 0, INF, frozenset())


def succs_order(f):
    seen, order = set(), []
    stack = [(f.blocks[0], iter(f.blocks[0].succs()))]
    seen.add(f.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs())))
                break
        else:
            order.append(b)
            stack.pop()
    return order[::-1]


def dominators(f):
    """block -> immediate dominator (entry maps to itself)"""
    if f._dom is not None:
        return f._dom
    order = succs_order(f)
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                changed = True
    f._dom = idom
    return idom


def dominates(f, a, b):
    d = dominators(f)
    if b not in d:
        return True
    while True:
        if b is a:
            return True
        if d[b] is b:
            return False
        b = d[b]


def inst_dominates(a, b):
    if a.bb is b.bb:
        return a.bb.insts.index(a) < b.bb.insts.index(b)
    return dominates(a.fn, a.bb, b.bb)


def loops(f):
    """header -> set of blocks of the natural loop"""
    d = dominators(f)
    out = {}
    for b in f.blocks:
        if b not in d:
            continue
        for s in b.succs():
            if dominates(f, s, b):
                body = out.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in x.preds if p in d)
    return out


def liveness(f):
    """block -> set of Inst live at block entry after phis (phi results of the block included if used)"""
    gen, kill = {}, {}
    phiuse = {}
    for b in f.blocks:
        g, k = set(), set()
        for i in b.insts:
            if i.op == 'phi':
                k.add(i)
                for v, p in i.incoming:
                    if v.kind == 'inst':
                        phiuse.setdefault(p, set()).add(v)
                continue
            for o in i.ops:
                if o.kind == 'inst' and o not in k:
                    g.add(o)
            if i.op == 'call' and i.callee.kind == 'inst' and i.callee not in k:
                g.add(i.callee)
            k.add(i)
        gen[b], kill[b] = g, k
    livein = {b: set() for b in f.blocks}
    changed = True
    while changed:
        changed = False
        for b in reversed(f.blocks):
            out = set(phiuse.get(b, ()))
            for s in b.succs():
                out |= livein[s]
            n = gen[b] | (out - kill[b])
            if n != livein[b]:
                livein[b] = n
                changed = True
    # values live just after phis: livein + phis used
    res = {}
    for b in f.blocks:
        out = set(phiuse.get(b, ()))
        for s in b.succs():
            out |= livein[s]
        used = set(out)
        for i in b.insts:
            if i.op != 'phi':
                used.update(o for o in i.ops if o.kind == 'inst')
                if i.op == 'call' and i.callee.kind == 'inst':
                    used.add(i.callee)
        res[b] = livein[b] | {i for i in b.insts if i.op == 'phi' and i in used}
    return res


class Client:
    """typestate client; override what is needed"""

    def starts(self, eng, st):
        return [st]

    def start(self, eng, st):
        st.ps = ()

    def call(self, eng, st, inst, args):
        return None

    def store(self, eng, st, inst, addr, val):
        pass

    def load(self, eng, st, inst, addr):
        pass

    def ret(self, eng, st, inst, val):
        pass

    def edge(self, eng, st, src, dst):
        pass

    def after_branch(self, eng, st, cond, truth):
        pass

    def feasible(self, eng, st, cond, truth):
        return True

    def rename(self, ps, mp):
        return ps

    def psterms(self, ps):
        return ()

    # a second, independent piece of typestate (hashable): ownership
    def rename_ext(self, ext, sub):
        return ext

    def extterms(self, ext):
        return ()

    def genphi(self, st, old, new):
        pass

    def pruned(self, eng, st):
        pass

    def joined(self, eng, a, b, j):
        pass

    def extern_pure(self, callee):
        return False


class MultiMods:
    def __init__(self, ms):
        self.ms = ms

    def hits(self, fld, ty):
        return any(m.hits(fld, ty) for m in self.ms)

    @property
    def params(self):
        return set().union(*[m.params for m in self.ms])


def _innermost(mod, srcty, idxs):
    ty = srcty
    r = None
    for n in idxs:
        if ty and ty.startswith('%') and mod.structs.get(ty) and n is not None:
            r = (ty, n)
            ty = mod.structs[ty][n]
        elif ty and ty.startswith('['):
            ty = ty[1:-1].split(' x ', 1)[1]
        else:
            ty = None
    return r


_live_cache = {}
_loop_cache = {}


def threshold(n):
    for k in (8, 12, 16, 31, 32):
        if n < 1 << k:
            return (1 << k) - 1
    return INF


class Engine:
    maxdepth = 7

    def __init__(self, mod, fn, client, modref=None, kmax=KMAX, maxsteps=MAXSTEPS):
        self.mod, self.fn, self.client = mod, fn, client
        self.modref = modref
        self.kmax = kmax
        self.maxsteps = maxsteps
        self.steps = 0
        self.truncated = False
        self.addrinfo = {}
        if fn not in _live_cache:
            _live_cache[fn] = liveness(fn)
            _loop_cache[fn] = loops(fn)
        self.live = _live_cache[fn]
        self.loops = _loop_cache[fn]
        self.joins = 0

    # ---------- term construction
    def ev(self, st, v):
        k = v.kind
        if k == 'inst':
            t = st.env.get(v)
            if t is None:
                return ('i', v.idx)
            return t
        if k == 'int':
            return ('k', v.n)
        if k == 'arg':
            return ('a', v.idx)
        if k == 'global':
            return ('g', v.name)
        if k == 'func':
            return ('f', v.name)
        if k in ('undef',):
            return UNDEF
        if k == 'cexpr':
            if v.op == 'gep':
                return self.mkgep(st, self.ev(st, v.ops[0]), v.srcty, [self.ev(st, o) for o in v.ops[1:]])
            if v.op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.ev(st, v.ops[0])
            return ('ce', id(v))
        if k == 'fp':
            return ('fp', v.text)
        if k == 'zero':
            return ('zero', v.ty)
        return ('c', id(v))

    def const_of(self, st, t, w=64):
        """integer value of term (signed) if known"""
        if t[0] == 'k':
            return t[1]
        f = st.facts.get(t)
        if f is not None:
            if f[0] == f[1]:
                return f[0]
            if f[2] == f[3]:
                return sx(f[2], w)
        return None

    def mkgep(self, st, base, srcty, idx):
        cs = []
        for t in idx:
            c = self.const_of(st, t)
            if c is None:
                break
            cs.append(c)
        if len(cs) == len(idx):
            off = self.gepoff(srcty, cs)
            if off is not None:
                r = self.off(base, off)
                if len(cs) > 1:
                    self.addrinfo[r] = (srcty, tuple(cs[1:]))
                return r
        r = ('gep', base, srcty, tuple(idx))
        if len(idx) > 1:
            self.addrinfo[r] = (srcty, tuple(i[1] if i[0] == 'k' else None for i in idx[1:]))
        return r

    def gepoff(self, srcty, cs):
        sz = self.mod.size_of(srcty)
        if sz is None:
            return None
        off = cs[0] * sz
        ty = srcty
        for c in cs[1:]:
            if ty.startswith('%') and ty in self.mod.structs:
                off += self.mod.field_off(ty, c)
                ty = self.mod.structs[ty][c]
            elif ty.startswith('['):
                el = ty[1:-1].split(' x ', 1)[1]
                es = self.mod.size_of(el)
                if es is None:
                    return None
                off += c * es
                ty = el
            else:
                return None
        return off

    @staticmethod
    def off(base, n):
        if base[0] == 'off':
            n += base[2]
            base = base[1]
        if n == 0:
            return base
        return ('off', base, n)

    @staticmethod
    def base(t):
        while t[0] in ('off', 'gep'):
            t = t[1]
        return t

    # ---------- ranges
    def srange(self, st, t, w):
        if t[0] == 'k':
            n = sx(t[1], w) if w else t[1]
            return n, n
        lo, hi = -(1 << (w - 1)) if w else -INF, (1 << (w - 1)) - 1 if w else INF
        o = t[0]
        if o == 'zext':
            a, b = self.urange(st, t[1], t[2])
            lo, hi = max(lo, a), min(hi, b)
        elif o == 'sext':
            a, b = self.srange(st, t[1], t[2])
            lo, hi = max(lo, a), min(hi, b)
        elif o == 'icmp':
            d = self.icmp(st, t[1], t[2], t[3], t[4])
            lo, hi = (0, 1) if d is None else (int(d), int(d))
        elif o in ('add', 'sub'):
            a, b = self.srange(st, t[1], w)
            c, d = self.srange(st, t[2], w)
            x, y = (a + c, b + d) if o == 'add' else (a - d, b - c)
            if lo <= x and y <= hi:
                lo, hi = x, y
        elif o in ('and', 'lshr', 'urem', 'udiv', 'trunc'):
            a, b = self.urange(st, t, w)
            if b <= hi:
                lo, hi = max(lo, a), b
        f = st.facts.get(t)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
            if f[3] < (1 << (w - 1)) if w else False:
                lo, hi = max(lo, f[2]), min(hi, f[3])
        return lo, hi

    def urange(self, st, t, w):
        m = (1 << w) - 1 if w else INF
        if t[0] == 'k':
            n = ux(t[1], w)
            return n, n
        lo, hi = 0, m
        o = t[0]
        if o == 'zext':
            lo, hi = self.urange(st, t[1], t[2])
            if t[2] == 1 and lo != hi:
                d = self.decide(st, t[1])
                if d is not None:
                    lo = hi = int(d)
        elif o == 'icmp':
            d = self.icmp(st, t[1], t[2], t[3], t[4])
            lo, hi = (0, 1) if d is None else (int(d), int(d))
        elif o == 'and':
            for x in (t[1], t[2]):
                c = self.const_of(st, x, w)
                if c is not None:
                    hi = min(hi, ux(c, w))
                else:
                    hi = min(hi, self.urange(st, x, w)[1])
        elif o == 'lshr':
            c = self.const_of(st, t[2], w)
            if c is not None and 0 <= c < w:
                a, b = self.urange(st, t[1], w)
                lo, hi = a >> c, b >> c
        elif o == 'urem':
            c = self.const_of(st, t[2], w)
            if c:
                hi = min(hi, ux(c, w) - 1)
        elif o == 'udiv':
            c = self.const_of(st, t[2], w)
            if c:
                a, b = self.urange(st, t[1], w)
                lo, hi = a // ux(c, w), b // ux(c, w)
        elif o == 'add':
            a, b = self.urange(st, t[1], w)
            c, d = self.urange(st, t[2], w)
            if b + d <= m:
                lo, hi = a + c, b + d
        elif o == 'mul':
            a, b = self.urange(st, t[1], w)
            c, d = self.urange(st, t[2], w)
            if b * d <= m:
                lo, hi = a * c, b * d
        elif o == 'trunc':
            a, b = self.urange(st, t[1], t[2])
            if b <= m:
                lo, hi = a, b
        elif o == 'shl':
            c = self.const_of(st, t[2], w)
            if c is not None and 0 <= c < w:
                a, b = self.urange(st, t[1], w)
                if b << c <= m:
                    lo, hi = a << c, b << c
        f = st.facts.get(t)
        if f:
            lo, hi = max(lo, f[2]), min(hi, f[3])
            if f[0] >= 0:
                lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def isnull(self, st, t):
        """True / False / None for pointer term"""
        if t[0] == 'k':
            return t[1] == 0
        if t[0] in ('g', 'f', 'al'):
            return False
        if t[0] in ('off', 'gep'):
            b = self.base(t)
            if b[0] in ('g', 'f', 'al'):
                return False
        f = st.facts.get(t)
        if f:
            if f[0] == f[1] == 0 or f[2] == f[3] == 0:
                return True
            if 0 in f[4] or f[2] > 0 or f[0] > 0 or f[1] < 0:
                return False
        return None

    def icmp(self, st, pred, a, b, w):
        """-> True/False/None"""
        if a == b and a[0] != 'undef':
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if w == 64:
            na, nb = self.isnull(st, a), self.isnull(st, b)
            if pred in ('eq', 'ne') and ((na is True and nb is False) or (na is False and nb is True)):
                return pred == 'ne'
            if pred in ('eq', 'ne') and a[0] in ('g', 'f', 'al') and b[0] in ('g', 'f', 'al'):
                return (a == b) == (pred == 'eq')
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if y[0] == 'k':
                    f = st.facts.get(x)
                    if f and sx(y[1], w) in f[4]:
                        return pred == 'ne'
            la, ha = self.urange(st, a, w)
            lb, hb = self.urange(st, b, w)
            if ha < lb or hb < la:
                return pred == 'ne'
            if la == ha == lb == hb:
                return pred == 'eq'
            la, ha = self.srange(st, a, w)
            lb, hb = self.srange(st, b, w)
            if ha < lb or hb < la:
                return pred == 'ne'
            if la == ha == lb == hb:
                return pred == 'eq'
        else:
            p = pred
            x, y = a, b
            if p in ('ugt', 'uge', 'sgt', 'sge'):
                x, y = b, a
                p = SWAP[p]
            rg = self.urange if p[0] == 'u' else self.srange
            lx, hx = rg(st, x, w)
            ly, hy = rg(st, y, w)
            if p[1:] == 'lt':
                if hx < ly:
                    return True
                if lx >= hy:
                    return False
            else:
                if hx <= ly:
                    return True
                if lx > hy:
                    return False
        r = st.rels
        if r:
            if (pred, a, b) in r or (SWAP[pred], b, a) in r:
                return True
            n = NEG[pred]
            if (n, a, b) in r or (SWAP[n], b, a) in r:
                return False
            if pred in ('ule', 'sle', 'uge', 'sge', 'ne'):
                for q in ({'ule': ('ult', 'eq'), 'sle': ('slt', 'eq'), 'uge': ('ugt', 'eq'), 'sge': ('sgt', 'eq'),
                           'ne': ('ult', 'ugt', 'slt', 'sgt')}[pred]):
                    if (q, a, b) in r or (SWAP[q], b, a) in r:
                        return True
            if pred in ('ult', 'slt', 'ugt', 'sgt', 'eq'):
                for q in ({'ult': ('ugt', 'eq'), 'slt': ('sgt', 'eq'), 'ugt': ('ult', 'eq'), 'sgt': ('slt', 'eq'),
                           'eq': ('ult', 'ugt', 'slt', 'sgt')}[pred]):
                    if (q, a, b) in r or (SWAP[q], b, a) in r:
                        return False
        return None

    # ---------- refinement
    def upd(self, st, t, slo=None, shi=None, ulo=None, uhi=None, ne=None, w=64):
        """intersect facts for t; returns False on contradiction"""
        f = st.facts.get(t, TOPF)
        s0, s1, u0, u1, nn = f
        if slo is not None:
            s0 = max(s0, slo)
        if shi is not None:
            s1 = min(s1, shi)
        if ulo is not None:
            u0 = max(u0, ulo)
        if uhi is not None:
            u1 = min(u1, uhi)
        if ne is not None:
            nn = nn | {ne}
            while s0 in nn and s0 <= s1:
                s0 += 1
            while s1 in nn and s0 <= s1:
                s1 -= 1
            if ne >= 0:
                if u0 == ne:
                    u0 += 1
                if u1 == ne:
                    u1 -= 1
            if len(nn) > 24:
                nn = f[4]
        if w:
            half = 1 << (w - 1)
            if u1 < half:
                s0, s1 = max(s0, u0), min(s1, u1)
            if s0 >= 0:
                u0, u1 = max(u0, s0), min(u1, s1)
        if s0 > s1 or u0 > u1:
            return False
        st.facts[t] = (s0, s1, u0, u1, nn)
        # propagate through conversions
        if t[0] == 'zext':
            wi = t[2]
            m = (1 << wi) - 1
            if (s0, s1) != (-INF, INF) or (u0, u1) != (0, INF):
                if not self.upd(st, t[1], ulo=max(0, u0), uhi=min(m, u1), w=wi):
                    return False
            if ne is not None and 0 <= ne <= m:
                if not self.upd(st, t[1], ne=sx(ne, wi), w=wi):
                    return False
            if t[1][0] == 'icmp' or wi == 1 and t[1][0] in ('xor', 'and', 'or'):
                c = None
                if ne == 0 or u0 >= 1:
                    c = True
                elif u1 == 0 or ne == 1:
                    c = False
                if c is not None and not self.refine(st, t[1], c):
                    return False
        elif t[0] == 'sext':
            wi = t[2]
            h = 1 << (wi - 1)
            if not self.upd(st, t[1], slo=max(-h, s0), shi=min(h - 1, s1), w=wi):
                return False
            if ne is not None and -h <= ne < h:
                if not self.upd(st, t[1], ne=ne, w=wi):
                    return False
        elif t[0] == 'trunc' and ne is None:
            src = t[1]
            wi = t[2]
            a, b = self.urange(st, src, wi)
            if b <= (1 << t[3]) - 1 and u1 < INF:
                if not self.upd(st, src, ulo=u0, uhi=u1, w=wi):
                    return False
        elif t[0] == 'icmp':
            c = None
            if ne == 0 or u0 >= 1:
                c = True
            elif u1 == 0 or ne in (1, -1):
                c = False
            if c is not None:
                return self.refine(st, t, c)
        elif t[0] == 'add' and t[2][0] == 'k' and w:
            k = t[2][1]
            a, b = self.srange(st, t[1], w)
            h = 1 << (w - 1)
            if a + k >= -h and b + k < h:
                if not self.upd(st, t[1], slo=s0 - k, shi=s1 - k, w=w):
                    return False
            a, b = self.urange(st, t[1], w)
            if 0 <= a + k and b + k < (1 << w):
                if not self.upd(st, t[1], ulo=max(0, u0 - k), uhi=u1 - k, w=w):
                    return False
        return True

    def refine(self, st, t, truth):
        """assume i1 term t == truth; returns False if contradictory (state mutated)"""
        if t[0] == 'k':
            return bool(t[1]) == truth
        if t[0] == 'icmp':
            _, pred, a, b, w = t
            if not truth:
                pred = NEG[pred]
            d = self.icmp(st, pred, a, b, w)
            if d is False:
                return False
            if a[0] == 'k' and b[0] != 'k':
                a, b, pred = b, a, SWAP[pred]
            ok = True
            if b[0] == 'k':
                s, u = sx(b[1], w), ux(b[1], w)
                if pred == 'eq':
                    ok = self.upd(st, a, slo=s, shi=s, ulo=u, uhi=u, w=w)
                    if ok and u == 0 and a[0] == 'or':
                        ok = self.zero(st, a, w)
                elif pred == 'ne':
                    ok = self.upd(st, a, ne=s, w=w)
                elif pred == 'ult':
                    ok = self.upd(st, a, uhi=u - 1, w=w)
                elif pred == 'ule':
                    ok = self.upd(st, a, uhi=u, w=w)
                elif pred == 'ugt':
                    ok = self.upd(st, a, ulo=u + 1, w=w)
                elif pred == 'uge':
                    ok = self.upd(st, a, ulo=u, w=w)
                elif pred == 'slt':
                    ok = self.upd(st, a, shi=s - 1, w=w)
                elif pred == 'sle':
                    ok = self.upd(st, a, shi=s, w=w)
                elif pred == 'sgt':
                    ok = self.upd(st, a, slo=s + 1, w=w)
                elif pred == 'sge':
                    ok = self.upd(st, a, slo=s, w=w)
                return ok
            # symbolic
            st.rels = st.rels | {(pred, a, b)}
            if pred[0] in 'us' and pred not in ():
                p, x, y = pred, a, b
                if p in ('ugt', 'uge', 'sgt', 'sge'):
                    x, y, p = b, a, SWAP[p]
                if p in ('ult', 'ule', 'slt', 'sle'):
                    strict = 1 if p.endswith('lt') else 0
                    if p[0] == 'u':
                        lx, hx = self.urange(st, x, w)
                        ly, hy = self.urange(st, y, w)
                        ok = self.upd(st, x, uhi=hy - strict, w=w) and self.upd(st, y, ulo=lx + strict, w=w)
                    else:
                        lx, hx = self.srange(st, x, w)
                        ly, hy = self.srange(st, y, w)
                        ok = self.upd(st, x, shi=hy - strict, w=w) and self.upd(st, y, slo=lx + strict, w=w)
            elif pred == 'eq':
                fa, fb = st.facts.get(a, TOPF), st.facts.get(b, TOPF)
                for x, f in ((a, fb), (b, fa)):
                    if not self.upd(st, x, slo=f[0], shi=f[1], ulo=f[2], uhi=f[3], w=w):
                        return False
                    for n in f[4]:
                        if not self.upd(st, x, ne=n, w=w):
                            return False
            return ok
        if t[0] == 'and' and truth:
            return self.refine(st, t[1], True) and self.refine(st, t[2], True)
        if t[0] == 'or' and not truth:
            return self.refine(st, t[1], False) and self.refine(st, t[2], False)
        if t[0] == 'xor':
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[0] == 'k':
                    return self.refine(st, x, truth != bool(y[1] & 1))
        if t[0] == 'trunc' and t[3] == 1:
            pass
        n = 1 if truth else 0
        return self.upd(st, t, slo=-1 if truth else 0, shi=n, ulo=n, uhi=n, w=0)

    def zero(self, st, t, w):
        """all parts of an `or' that is 0 are 0"""
        while t[0] in ('zext', 'sext', 'freeze'):
            t = t[1]
        if t[0] == 'or':
            return self.zero(st, t[1], w) and self.zero(st, t[2], w)
        if t[0] == 'icmp':
            return self.refine(st, t, False)
        return t[0] == 'k' or self.upd(st, t, slo=0, shi=0, ulo=0, uhi=0, w=w)

    def decide(self, st, t):
        if t[0] == 'k':
            return bool(t[1] & 1)
        if t[0] == 'icmp':
            return self.icmp(st, t[1], t[2], t[3], t[4])
        if t[0] in ('and', 'or'):
            x, y = self.decide(st, t[1]), self.decide(st, t[2])
            if t[0] == 'and' and (x is False or y is False):
                return False
            if t[0] == 'or' and (x is True or y is True):
                return True
            if x is not None and y is not None:
                return x
        if t[0] == 'xor':
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[0] == 'k':
                    d = self.decide(st, x)
                    return None if d is None else d != bool(y[1] & 1)
        f = st.facts.get(t)
        if f:
            if f[2] == f[3]:
                return bool(f[2])
        return None

    # ---------- memory
    def alias(self, a, b):
        """may addresses a and b overlap (cells, sizes ignored unless same base)?"""
        if a == b:
            return True
        ba, bb = self.base(a), self.base(b)
        la, lb = ba[0] in ('al', 'g'), bb[0] in ('al', 'g')
        if ba == bb:
            if a[0] != 'gep' and b[0] != 'gep':
                return False            # distinct constant offsets; cells are field sized
            ea, eb = self.extent(a), self.extent(b)
            if ea and eb and (ea[1] <= eb[0] or eb[1] <= ea[0]):
                return False
            ia, ib = self.addrinfo.get(a), self.addrinfo.get(b)
            if ia and ib and ia[0] == ib[0] and any(x is not None and y is not None and x != y for x, y in zip(ia[1], ib[1])):
                return False
            return True
        if la and lb:
            return False
        if ba[0] == 'al' or bb[0] == 'al':
            return False                # address-taken locals are only reached through calls
        ia, ib = self.addrinfo.get(a), self.addrinfo.get(b)
        if ia and ib and (ia[0] != ib[0] or ia[1] != ib[1]):
            return False
        return True

    def extent(self, t):
        """byte range, relative to the base, an address may denote (indexing stays inside its array)"""
        if t[0] == 'off':
            return (t[2], t[2] + 1)
        if t[0] == 'gep':
            if t[2].startswith('[') and t[3] and t[3][0] == K0:
                e = self.extent(t[1])
                n = self.mod.size_of(t[2])
                if e and n and e[1] == e[0] + 1:
                    return (e[0], e[0] + n)
            return None
        return (0, 1)

    def do_store(self, st, addr, ty, val):
        dead = [k for k in st.mem if k[0] != addr and self.alias(k[0], addr) and
                (k[1] == ty or self.base(k[0]) == self.base(addr))]
        for k in dead:
            del st.mem[k]
        for k in [k for k in st.mem if k[0] == addr and k[1] != ty]:
            del st.mem[k]
        st.mem[(addr, ty)] = val

    def havoc(self, st, args, callee=None, inst=None):
        """effect of a call on known cells"""
        mods = None
        if callee is not None and self.modref is not None:
            mods = self.modref.get(callee, inst)
            if mods is None and inst is not None:
                ts = self.modref.prog.targets(inst)
                ms = [self.modref.get(t, inst) for t in ts]
                if ts and all(m is not None for m in ms):
                    mods = MultiMods([m for m in ms if m is not False])
        passed = set()
        exact = set()
        for t in args:
            b = self.base(t)
            if b[0] not in ('k', 'f'):
                if mods is False and t[0] == 'off' and b[0] == 'al' and self._scalar_field(t):
                    exact.add(t)        # an external function handed one scalar field of a local struct
                    continue
                passed.add(b)
        # cells reachable through pointers stored in passed memory
        grew = True
        while grew:
            grew = False
            for (a, ty), v in st.mem.items():
                if self.base(a) in passed and v:
                    bv = self.base(v)
                    if bv not in passed and bv[0] not in ('k', 'f'):
                        passed.add(bv)
                        grew = True
        ptrs = None
        for k in list(st.mem):
            b = self.base(k[0])
            if mods is False:
                # external function: writes only through the pointers it is given
                if k[0] in exact:
                    del st.mem[k]
                elif b in passed and (b[0] == 'al' or not self.client.extern_pure(callee)):
                    del st.mem[k]
                continue
            if b[0] == 'al' and b not in passed:
                continue
            if mods is not None:
                inf = self.addrinfo.get(k[0])
                fld = None
                if inf is not None:
                    fld = _innermost(self.mod, inf[0], inf[1])
                if fld is not None and b[0] == 'al' and not mods.hits(fld, None):
                    # a field of a local struct: an untyped store reaches it only through a pointer to that very field
                    if ptrs is None:
                        ptrs = set(args) | set(st.mem.values())
                    hit = k[0] in ptrs and self._scalar_field(k[0]) and mods.hits(fld, k[1])
                else:
                    hit = mods.hits(fld, k[1])
                if not hit and not self._written(k, args, mods.params):
                    continue
            del st.mem[k]

    def _written(self, cell, args, params):
        """may a callee storing through its pointer parameters change this cell?"""
        bc = self.base(cell[0])
        for k, ty in params:
            if k >= len(args):
                return True
            ba = self.base(args[k])
            if ty != cell[1] and ty != 'i8':
                continue
            if ba == bc:
                if args[k][0] == 'off' and cell[0][0] in ('off', 'al', 'a', 'i') and self._scalar_field(args[k]) and args[k] != cell[0]:
                    continue        # the address of one scalar field
                return True
            if ba[0] in ('al', 'g', 'f', 'k') or bc[0] in ('al', 'g'):
                continue
            return True
        return False

    def _scalar_field(self, t):
        inf = self.addrinfo.get(t)
        if inf is None:
            return False
        r = _innermost(self.mod, inf[0], inf[1])
        return r is not None and self.mod.structs[r[0]][r[1]][0] not in '%['

    # ---------- execution
    def run(self):
        st = State()
        self.client.start(self, st)
        self.seen = {}
        self.work = deque()
        for s in self.client.starts(self, st):
            self.push(s, None, self.fn.blocks[0])
        while self.work:
            b, s = self.work.popleft()
            self.steps += 1
            if self.steps > self.maxsteps:
                self.truncated = True
                break
            self.exec_block(b, s)
        return self

    def push(self, st, src, dst):
        """enter dst from src: evaluate phis, generalise at loop headers, prune, dedupe, enqueue"""
        fn = self.fn
        env = st.env
        body = self.loops.get(dst)
        back = body is not None and src in body
        newv = {}
        gen = []
        for i in dst.insts:
            if i.op != 'phi':
                break
            for v, p in i.incoming:
                if p is src:
                    t = self.ev(st, v)
                    if back and v.kind == 'inst' and v.op not in ('phi', 'select'):
                        if t[0] == 'k' or (v.op == 'gep' and v.ops[0] is i) or contains(t, lambda x: x[0] in ('i', 'phi')):
                            gen.append((i, t, v))
                    newv[i] = t
                    break
        if back:
            sub = self.rename_loop(st, dst, body, newv)
            env = st.env
            for i, t0, v in gen:
                newv[i] = t = ('phi', i.idx)
                self._genphi(st, i, t, sub(t0), v)
                if st.ext and i.ty == 'ptr':
                    self.client.genphi(st, sub(t0), t)
        for i, t in newv.items():
            env[i] = t
        self.client.edge(self, st, src, dst)
        # prune
        live = self.live[dst]
        st.env = {v: t for v, t in env.items() if v in live}
        keep = set()
        for t in st.env.values():
            subterms(t, keep)
        for (a, ty), t in st.mem.items():
            subterms(a, keep)
            subterms(t, keep)
        for t in self.client.psterms(st.ps):
            subterms(t, keep)
        if st.ext:
            for t in self.client.extterms(st.ext):
                subterms(t, keep)
        self._keepargs(keep)
        if len(st.facts) > 0:
            st.facts = {t: f for t, f in st.facts.items() if t in keep or self._fk(t, keep)}
        if st.rels:
            st.rels = frozenset(r for r in st.rels if self._rk(r[1], keep) and self._rk(r[2], keep))
        if st.ext:
            self.client.pruned(self, st)
        self.enqueue(dst, st)

    def _keepargs(self, keep):
        pass

    def _fk(self, t, keep):
        if t[0] == 'a':
            return True
        # facts on compound terms whose leaves stay meaningful
        return t[0] not in ('i', 'phi', 'old') and all(
            (x in keep or x[0] in ('a', 'k', 'g', 'f', 'al')) for x in _leaves(t))

    def _rk(self, t, keep):
        return t in keep or all((x in keep or x[0] in ('a', 'k', 'g', 'f', 'al')) for x in _leaves(t))

    def _genphi(self, st, i, t, t0, v):
        """facts for a generalised loop phi: monotone counters keep their start as lower bound"""
        st.facts.pop(t, None)
        st.rels = frozenset(r for r in st.rels if not (contains(r[1], lambda x: x == t) or contains(r[2], lambda x: x == t))) \
            if st.rels else st.rels
        if v.op == 'add' and v.ops[0] is i and v.ops[1].kind == 'int' and v.ops[1].n > 0:
            start = [o for o, p in i.incoming if o.kind == 'int']
            if len(start) == 1 and start[0].n >= 0:
                st.facts[t] = (start[0].n, INF, 0, INF, frozenset())
                if self._counter_guarded(i):
                    st.facts[t] = (start[0].n, INF, start[0].n, INF, frozenset())

    def _counter_guarded(self, i):
        return True

    def rename_loop(self, st, header, body, newv):
        """values of the previous iteration: rename symbols defined in the loop that survive in phis/mem/ps"""
        inloop = set()
        for b in body:
            for i in b.insts:
                inloop.add(('i', i.idx))
                if i.op == 'phi':
                    inloop.add(('phi', i.idx))
        mp = {x: ('old',) + x for x in inloop}
        # what was already an old value of this loop is one no longer told apart from the new one
        olds = set(mp.values())
        stale = lambda t: contains(t, lambda x: x in olds)
        st.facts = {t: f for t, f in st.facts.items() if not stale(t)}
        if st.rels:
            st.rels = frozenset(r for r in st.rels if not any(stale(x) for x in r[1:]))
        st.mem = {k: t for k, t in st.mem.items() if not stale(k[0]) and not stale(t)}

        def sub(t):
            return subst(t, mp)
        for i in list(newv):
            newv[i] = sub(newv[i])
        st.env = {v: sub(t) for v, t in st.env.items() if v.bb not in body}
        st.mem = {(sub(a), ty): sub(t) for (a, ty), t in st.mem.items()}
        st.facts = {sub(t): f for t, f in st.facts.items()}
        if st.rels:
            st.rels = frozenset((p, sub(a), sub(b)) for p, a, b in st.rels)
        st.ps = self.client.rename(st.ps, sub)
        if st.ext:
            st.ext = self.client.rename_ext(st.ext, sub)
        return sub

    def enqueue(self, b, st):
        key = (b, st.ps, st.ext)
        lst = self.seen.setdefault(key, [])
        for o in lst:
            if self.leq(st, o):
                return
        if len(lst) >= self.kmax:
            # join with the state that loses least
            n = min(range(len(lst)), key=lambda k: (self.cost(lst[k], st), -k))
            j = self.join(lst[n], st)
            self.joins += 1
            if j.ext:
                self.client.joined(self, lst[n], st, j)
                if j.ext != st.ext:
                    self.enqueue(b, j)
                    return
            if self.leq(j, lst[n]):
                return
            j.trail = st.trail
            lst[n] = j
            self.work.append((b, j.copy()))
            return
        lst.append(st)
        self.work.append((b, st.copy()))

    @staticmethod
    def cost(a, b):
        """what joining loses: disagreeing constants weigh most"""
        n = 0
        for d, e in ((a.env, b.env), (a.mem, b.mem)):
            for k, t in d.items():
                u = e.get(k)
                if u != t:
                    n += 8 if t[0] == 'k' or (u is not None and u[0] == 'k') else 1
            for k, u in e.items():
                if k not in d:
                    n += 8 if u[0] == 'k' else 1
        for k, f in a.facts.items():
            if b.facts.get(k) != f:
                n += 2
        return n + len(a.rels ^ b.rels)

    def leq(self, a, b):
        """a is covered by b (b at most as precise)"""
        tops = {}
        for v, t in b.env.items():
            x = a.env.get(v, ('i', v.idx))
            if t == ('top', v.idx):
                if x != t and width(v.ty):
                    tops[t] = (x, width(v.ty))
            elif x != t:
                return False
        for v, t in a.env.items():
            if v not in b.env:
                return False
        for k, t in b.mem.items():
            if a.mem.get(k) != t:
                return False
        for t, f in b.facts.items():
            if t in tops:
                g = self.bounds(a, tops[t][0], tops[t][1])
                if not (g[0] >= f[0] and g[1] <= f[1] and g[2] >= f[2] and g[3] <= f[3] and all(self.excludes(g, n, tops[t][1]) for n in f[4])):
                    return False
                continue
            g = a.facts.get(t)
            if g is None:
                if t[0] == 'k':
                    continue
                return False
            if not (g[0] >= f[0] and g[1] <= f[1] and g[2] >= f[2] and g[3] <= f[3] and f[4] <= g[4]):
                return False
        return b.rels <= a.rels

    def bounds(self, st, t, w):
        f = st.facts.get(t, TOPF)
        if t[0] == 'k':
            n = t[1]
            return (sx(n, w), sx(n, w), ux(n, w), ux(n, w), frozenset())
        lo, hi = self.srange(st, t, w)
        ul, uh = self.urange(st, t, w)
        h = 1 << (w - 1)
        ne = f[4]
        if t[0] == 'f' or t[0] == 'g' or t[0] == 'al':
            ne = ne | {0}
        return (lo if lo > -h else -INF, hi if hi < h - 1 else INF, ul, uh if uh < (1 << w) - 1 else INF, ne)

    @staticmethod
    def excludes(f, n, w):
        return n in f[4] or n < f[0] or n > f[1] or ux(n, w) < f[2] or ux(n, w) > f[3]

    def join(self, a, b):
        s = State()
        s.ps, s.ext = b.ps, b.ext
        s.trail = b.trail
        merged = {}
        for v, t in a.env.items():
            u = b.env.get(v)
            if u == t:
                s.env[v] = t
            else:
                s.env[v] = ('top', v.idx)
                w = width(v.ty)
                if w:
                    f, g = self.bounds(a, t, w), self.bounds(b, u if u is not None else ('i', v.idx), w)
                    merged[('top', v.idx)] = (f, g, w)
        for v in b.env:
            if v not in s.env:
                s.env[v] = ('top', v.idx)
        for k, t in a.mem.items():
            if b.mem.get(k) == t:
                s.mem[k] = t
        # what both sides knew about a value that now stands for either
        for t, (f, g, w) in merged.items():
            lo = f[0] if f[0] <= g[0] else -INF
            hi = f[1] if f[1] >= g[1] else INF
            ul = f[2] if f[2] <= g[2] else 0
            uh = f[3] if f[3] >= g[3] else INF
            ne = {n for n in f[4] | g[4] | {0} if self.excludes(f, n, w) and self.excludes(g, n, w)}
            r = (lo, hi, ul, uh, frozenset(ne))
            if r != TOPF:
                s.facts[t] = r
        for t, f in a.facts.items():
            g = b.facts.get(t)
            if t in merged:
                continue
            if g is not None:
                # hull, widened to the next threshold when growing
                lo = f[0] if f[0] <= g[0] else 0 if g[0] >= 0 else -INF
                hi = f[1] if f[1] >= g[1] else threshold(g[1])
                ul = f[2] if f[2] <= g[2] else 0
                uh = f[3] if f[3] >= g[3] else threshold(g[3])
                ne = f[4] & g[4]
                r = (lo, hi, ul, uh, ne)
                if r != TOPF:
                    s.facts[t] = r
        s.rels = a.rels & b.rels
        return s

    def exec_block(self, b, st):
        self.exec_from(b, 0, st)

    def exec_from(self, b, pos, st):
        insts = b.insts
        n = len(insts)
        cl = self.client
        while pos < n:
            i = insts[pos]
            op = i.op
            if op == 'phi':
                pos += 1
                continue
            if op == 'br':
                if len(i.succs) == 1:
                    self.push(st, b, i.succs[0])
                    return
                c = self.ev(st, i.ops[0])
                d = self.decide(st, c)
                for truth, dst in ((True, i.succs[0]), (False, i.succs[1])):
                    if d is not None and d != truth:
                        continue
                    s2 = st.copy() if d is None else st
                    if d is None or c[0] == 'icmp':
                        if d is None and not cl.feasible(self, st, c, truth):
                            continue
                        if not self.refine(s2, c, truth):
                            continue
                    self.brinst = i
                    cl.after_branch(self, s2, c, truth)
                    s2.trail = (i, truth, st.trail)
                    self.push(s2, b, dst)
                return
            if op == 'switch':
                t = self.ev(st, i.ops[0])
                w = width(i.ops[0].ty)
                c = self.const_of(st, t, w)
                seen = False
                if c is not None:
                    dst = i.succs[0]
                    for n_, bb in i.cases:
                        if ux(n_, w) == ux(c, w):
                            dst = bb
                            break
                    st.trail = (i, c, st.trail)
                    self.push(st, b, dst)
                    return
                sd = st.copy()
                okd = True
                for n_, bb in i.cases:
                    s2 = st.copy()
                    if self.refine(s2, ('icmp', 'eq', t, ('k', n_), w), True):
                        s2.trail = (i, n_, st.trail)
                        self.push(s2, b, bb)
                    if okd and not self.refine(sd, ('icmp', 'ne', t, ('k', n_), w), True):
                        okd = False
                if okd:
                    sd.trail = (i, 'default', st.trail)
                    self.push(sd, b, i.succs[0])
                return
            if op == 'ret':
                v = self.ev(st, i.ops[0]) if i.ops else None
                cl.ret(self, st, i, v)
                return
            if op == 'unreachable':
                return
            if op == 'call':
                args = [self.ev(st, o) for o in i.ops]
                res = cl.call(self, st, i, args)
                if res is None:
                    self.default_call(st, i, args)
                    pos += 1
                    continue
                if not res:
                    return
                for s2, rt in res[1:]:
                    if rt is not None:
                        s2.env[i] = rt
                    self.exec_from(b, pos + 1, s2)
                st, rt = res[0]
                if rt is not None:
                    st.env[i] = rt
                pos += 1
                continue
            self.exec_inst(st, i)
            pos += 1

    def fresh(self, st, i):
        """(re)define opaque symbol for instruction i"""
        t = ('i', i.idx)
        if t in st.facts:
            del st.facts[t]
        if st.rels:
            st.rels = frozenset(r for r in st.rels if not any(contains(x, lambda y: y == t) for x in r[1:]))
        return t

    def default_call(self, st, i, args):
        nm = i.cname()
        base = nm.split('.')[0] if nm and not nm.startswith('llvm.') else nm
        if nm and nm.startswith('llvm.mem'):
            b = self.base(args[0])
            whole = self._whole(i)
            for k in list(st.mem):
                if whole and self.base(k[0]) != b:
                    inf = self.addrinfo.get(k[0])
                    fld = _innermost(self.mod, inf[0], inf[1]) if inf else None
                    if fld and fld[0] not in whole:
                        continue
                if self.base(k[0]) == b or (b[0] not in ('al', 'g') and self.base(k[0])[0] not in ('al',)):
                    del st.mem[k]
            return
        if nm is None:
            self.havoc(st, args, i.callee, i)
        elif base in PURE:
            pass
        else:
            self.havoc(st, args, i.callee, i)
        if i.ty != 'void':
            st.env[i] = self.fresh(st, i)

    def _whole(self, i):
        """the struct types a block copy of this constant size can be an assignment of"""
        if len(i.ops) < 3 or i.ops[2].kind != 'int':
            return None
        mod = self.mod
        out = set()

        def sub(s):
            if s in out:
                return
            out.add(s)
            for t in mod.structs[s]:
                while t.startswith('['):
                    t = t[1:-1].split(' x ', 1)[1]
                if t.startswith('%') and mod.structs.get(t):
                    sub(t)
        for s in mod.structs:
            if mod.structs[s] and mod.size_of(s) == i.ops[2].n:
                sub(s)
        return out

    def exec_inst(self, st, i):
        op = i.op
        env = st.env
        if op == 'load':
            a = self.ev(st, i.ops[0])
            self.client.load(self, st, i, a)
            v = st.mem.get((a, i.ty))
            if v is None:
                v = self.fresh(st, i)
                st.mem[(a, i.ty)] = v
            env[i] = v
        elif op == 'store':
            a = self.ev(st, i.ops[1])
            v = self.ev(st, i.ops[0])
            r = self.client.store(self, st, i, a, v)
            self.do_store(st, a, i.ops[0].ty, v if r is None else r)
        elif op == 'alloca':
            env[i] = ('al', i.idx)
        elif op == 'gep':
            env[i] = self.mkgep(st, self.ev(st, i.ops[0]), i.srcty, [self.ev(st, o) for o in i.ops[1:]])
        elif op == 'icmp':
            a, b = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            w = width(i.ops[0].ty)
            if a[0] == 'k' and b[0] == 'k':
                r = self.icmp(st, i.pred, a, b, w)
                env[i] = K1 if r else K0
            else:
                env[i] = ('icmp', i.pred, a, b, w)
        elif op in ('zext', 'sext', 'trunc'):
            a = self.ev(st, i.ops[0])
            wf, wt = width(i.ops[0].ty), width(i.ty)
            if a[0] == 'k':
                n = ux(a[1], wf) if op == 'zext' else (sx(a[1], wf) if wf > 1 or op == 'zext' else -(a[1] & 1))
                env[i] = ('k', sx(n, wt))
            elif op == 'trunc' and a[0] in ('zext', 'sext') and a[2] == wt:
                env[i] = a[1]
            elif op == 'zext' and a[0] == 'zext':
                env[i] = ('zext', a[1], a[2], wt)
            else:
                env[i] = self.limit(st, i, (op, a, wf, wt))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            env[i] = self.binop(st, i, op, a, b, width(i.ty))
        elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            env[i] = self.ev(st, i.ops[0])
        elif op == 'select':
            c = self.ev(st, i.ops[0])
            d = self.decide(st, c)
            if d is not None:
                env[i] = self.ev(st, i.ops[1 if d else 2])
            else:
                env[i] = self.fresh(st, i)
        elif op == 'extractvalue':
            a = self.ev(st, i.ops[0])
            env[i] = self.extract(st, i, a)
        elif op == 'insertvalue':
            a = self.ev(st, i.ops[0])
            v = self.ev(st, i.ops[1])
            env[i] = self.limit(st, i, ('iv', a, tuple(i.indices), v))
        else:
            if i.ty != 'void':
                env[i] = self.fresh(st, i)

    def extract(self, st, i, a):
        ix = tuple(i.indices)
        while a[0] == 'iv':
            if a[2] == ix:
                return a[3]
            a = a[1]
        return self.limit(st, i, ('ev', a, ix))

    def limit(self, st, i, t):
        if depth(t) > self.maxdepth:
            return self.fresh(st, i)
        return t

    def binop(self, st, i, op, a, b, w):
        ca, cb = (a[1] if a[0] == 'k' else None), (b[1] if b[0] == 'k' else None)
        if ca is not None and cb is not None and w:
            ua, ub = ux(ca, w), ux(cb, w)
            try:
                n = {'add': lambda: ca + cb, 'sub': lambda: ca - cb, 'mul': lambda: ca * cb, 'and': lambda: ca & cb,
                     'or': lambda: ca | cb, 'xor': lambda: ca ^ cb, 'shl': lambda: ca << cb if 0 <= cb < w else 0,
                     'lshr': lambda: ua >> cb if 0 <= cb < w else 0, 'ashr': lambda: ca >> cb if 0 <= cb < w else 0,
                     'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
                     'sdiv': lambda: abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1),
                     'srem': lambda: abs(ca) % abs(cb) * (1 if ca >= 0 else -1)}[op]()
                return ('k', sx(n, w))
            except ZeroDivisionError:
                return self.fresh(st, i)
        if ca is not None and op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b, ca, cb = b, a, cb, ca
        if cb == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if cb == 0 and op in ('mul', 'and'):
            return K0
        if cb == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
        if op == 'sub' and cb is not None:
            op, b, cb = 'add', ('k', sx(-cb, w)), sx(-cb, w)
        if op == 'add' and cb is not None and a[0] == 'add' and a[2][0] == 'k':
            n = sx(a[2][1] + cb, w)
            return a[1] if n == 0 else ('add', a[1], ('k', n))
        if op in ('add', 'mul', 'and', 'or', 'xor') and cb is None and repr(b) < repr(a):
            a, b = b, a
        return self.limit(st, i, (op, a, b))

    # ---------- reporting
    def trail_str(self, st, n=12):
        out = []
        t = st.trail
        while t is not None and len(out) < n:
            i, truth, t = t
            out.append('%s:%d=%s' % (i.file.split('/')[-1], i.line, {True: 'T', False: 'F'}.get(truth, truth) if isinstance(truth, bool) else truth))
        return ' <- '.join(out)


def _leaves(t):
    if t[0] in ('k', 'a', 'i', 'g', 'f', 'al', 'undef', 'phi', 'old', 'top', 'fp', 'zero', 'c', 'ce'):
        return [t]
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out.extend(_leaves(x))
            else:
                for y in x:
                    if isinstance(y, tuple):
                        out.extend(_leaves(y))
    return out


PURE = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'PyErr_SetString', 'PyErr_NoMemory', 'PyErr_Occurred', 'Py_INCREF', 'Py_XINCREF',
        'Py_IS_TYPE', 'Py_TYPE', 'PyType_HasFeature', 'PyObject_TypeCheck', 'PyType_IsSubtype', '__errno_location', 'PyErr_Format',
        'PyErr_Clear', '_PyErr_BadInternalCall', 'PyIndex_Check', 'fprintf', 'printf', 'Py_SIZE', 'PyList_GET_SIZE', 'PyTuple_GET_SIZE',
        'PyUnicode_GET_LENGTH', 'PyUnicode_DATA', 'PyUnicode_KIND'}
