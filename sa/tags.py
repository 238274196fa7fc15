"""What a function does for one value of a type tag: sparse conditional evaluation with small value sets.

A tag is a value that a function compares with several of the type constants.  Binding a tag to one type prunes the branches that are not
taken for it and gives the values (sizes, names, callbacks) that the function uses for it."""

TOP = 'top'
LIMIT = 16


class Paths:
    """Canonical access paths of values of one function: (root, byte offset) or structural tuples."""

    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.memo = {}
        self.tab = {}

    def intern(self, t):
        return self.tab.setdefault(t, t)

    def of(self, v):
        k = id(v)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = self.intern((('v', getattr(v, 'idx', 0), v.bb.idx if v.kind == 'inst' else -1), 0))    # cycles
            r = self.intern(self.make(v))
            self.memo[k] = r
        return r

    def make(self, v):
        if v.kind == 'arg':
            return (('a', v.idx), 0)
        if v.kind == 'int':
            return (('k', v.n), 0)
        if v.kind in ('global', 'func'):
            return (('g', v.name), 0)
        if v.kind != 'inst':
            if v.kind == 'cexpr' and v.op == 'gep' and v.ops:
                return self.gep(v)
            return (('c', v.kind), 0)
        if v.op == 'gep':
            return self.gep(v)
        if v.op in ('bitcast', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.of(v.ops[0])
        if v.op == 'load':
            return (('ld', self.of(v.ops[0])), 0)
        if v.op == 'lshr' and v.ops[1].kind == 'int' and width(v.ty):
            r = self.bits(v.ops[0], v.ops[1].n, width(v.ty) - v.ops[1].n)
            if r:
                return r
        if v.op in ('and', 'or', 'add', 'mul', 'shl', 'lshr', 'sub'):
            return ((v.op, self.of(v.ops[0]), self.of(v.ops[1])), 0)
        if v.op == 'trunc':
            r = self.bits(v.ops[0], 0, width(v.ty)) if width(v.ty) else None
            return r or (('trunc', v.ty, self.of(v.ops[0])), 0)
        if v.op == 'phi':
            ps = {self.of(x) for x, b in v.incoming if x.kind not in ('undef', 'int') and x is not v}
            ps.discard(self.memo[id(v)])
            if len(ps) == 1:
                return ps.pop()
            if 1 < len(ps) <= 12:
                return (('phi', tuple(sorted(ps, key=repr))), 0)
        if v.op == 'select':
            ps = {self.of(x) for x in v.ops[1:] if x.kind not in ('undef', 'int')}
            if len(ps) == 1:
                return ps.pop()
            if ps:
                return (('phi', tuple(sorted(ps, key=repr))), 0)
        if v.op == 'call' and v.callee.kind == 'func' and v.callee.name.split('.')[0] in ('Py_NewRef', '_Py_NewRef', 'Py_XNewRef', '_Py_XNewRef'):
            return self.of(v.ops[0])
        if v.op == 'alloca':
            return (('al', v.idx, v.bb.idx), 0)
        return (('v', v.idx, v.bb.idx), 0)

    def bits(self, v, lo, w, d=0):
        """path of the bits [lo, lo+w) of v, when they are one value or part of one load"""
        if d > 12 or v.kind not in ('inst', 'arg'):
            return None
        if v.kind == 'inst':
            op = v.op
            if op == 'zext' and lo + w <= (width(v.ops[0].ty) or 0):
                return self.bits(v.ops[0], lo, w, d + 1)
            if op == 'or':
                for a, b in (v.ops, v.ops[::-1]):
                    if self.zero(a, lo, w):
                        return self.bits(b, lo, w, d + 1)
                return None
            if op == 'shl' and v.ops[1].kind == 'int' and lo >= v.ops[1].n:
                return self.bits(v.ops[0], lo - v.ops[1].n, w, d + 1)
            if op == 'lshr' and v.ops[1].kind == 'int' and lo + v.ops[1].n + w <= width(v.ty):
                return self.bits(v.ops[0], lo + v.ops[1].n, w, d + 1)
            if op == 'and' and v.ops[1].kind == 'int' and (v.ops[1].n >> lo) & ((1 << w) - 1) == (1 << w) - 1:
                return self.bits(v.ops[0], lo, w, d + 1)
            if op == 'trunc':
                return self.bits(v.ops[0], lo, w, d + 1)
            if op == 'load' and lo % 8 == 0 and w in (8, 16, 32, 64):
                root, off = self.of(v.ops[0])
                return (('ld', self.intern((root, off + lo // 8))), 0)
        if lo == 0 and w == width(v.ty):
            return self.of(v)
        return None

    @staticmethod
    def zero(v, lo, w):
        if v.kind == 'int':
            return (v.n >> lo) & ((1 << w) - 1) == 0
        if v.kind != 'inst':
            return False
        if v.op == 'shl' and v.ops[1].kind == 'int':
            return lo + w <= v.ops[1].n
        if v.op == 'zext':
            return lo >= (width(v.ops[0].ty) or 1 << 30)
        if v.op == 'and' and v.ops[1].kind == 'int':
            return (v.ops[1].n >> lo) & ((1 << w) - 1) == 0
        return False

    def gep(self, v):
        base = self.of(v.ops[0])
        off = gepoff(self.mod, v)
        if off is not None:
            if v.srcty.startswith('%struct.Py') and base[1] == 0 and base[0][0] != 'as':
                base = (('as', base[0], v.srcty.split('.')[1]), 0)      # objects of different types are told apart
            return (base[0], base[1] + off)
        return (('ix', base, v.srcty, tuple(self.of(o) for o in v.ops[1:])), 0)


def gepoff(mod, v):
    cs = [o.n if o.kind == 'int' else None for o in v.ops[1:]]
    if None in cs:
        return None
    sz = mod.size_of(v.srcty)
    if sz is None:
        return None
    off = cs[0] * sz
    ty = v.srcty
    for c in cs[1:]:
        if ty.startswith('%') and mod.structs.get(ty):
            off += mod.field_off(ty, c)
            ty = mod.structs[ty][c]
        elif ty.startswith('['):
            ty = ty[1:-1].split(' x ', 1)[1]
            off += c * (mod.size_of(ty) or 0)
        else:
            return None
    return off


def width(ty):
    return int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else None


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


PRED = {'eq': lambda a, b, w: a == b, 'ne': lambda a, b, w: a != b,
        'ugt': lambda a, b, w: a > b, 'uge': lambda a, b, w: a >= b, 'ult': lambda a, b, w: a < b, 'ule': lambda a, b, w: a <= b,
        'sgt': lambda a, b, w: sgn(a, w) > sgn(b, w), 'sge': lambda a, b, w: sgn(a, w) >= sgn(b, w),
        'slt': lambda a, b, w: sgn(a, w) < sgn(b, w), 'sle': lambda a, b, w: sgn(a, w) <= sgn(b, w)}


class Run:
    """Evaluation of one function with bind: canonical path -> int, and model: call -> value set or None."""

    def __init__(self, paths, bind, call=None, args=None):
        self.p, self.fn, self.mod = paths, paths.fn, paths.mod
        self.bind, self.call = bind, call
        self.args = args or {}
        self.val = {}
        self.edges = set()
        self.live = set()
        self.solve()

    def get(self, v):
        if v.kind == 'int':
            w = width(v.ty)
            return frozenset([v.n & ((1 << w) - 1)]) if w else frozenset([0]) if v.n == 0 else TOP
        if v.kind == 'null':
            return frozenset([0])
        if v.kind in ('func', 'global'):
            return frozenset([v])
        if v.kind == 'cexpr' and v.op == 'gep' and v.ops and v.ops[0].kind == 'global' and gepoff(self.mod, v) == 0:
            return frozenset([v.ops[0]])
        if v.kind == 'undef':
            return frozenset()
        if v.kind == 'inst':
            return self.val.get(v, frozenset())
        if v.kind == 'arg':
            r = self.bind.get(self.p.of(v))
            if r is not None:
                return frozenset([r])
            return self.args.get(v.idx, TOP)
        return TOP

    def solve(self):
        work = [self.fn.blocks[0]]
        self.live.add(self.fn.blocks[0])
        n = 0
        dirty = {self.fn.blocks[0]}
        while work:
            b = work.pop()
            dirty.discard(b)
            n += 1
            if n > 20000:
                self.live = set(self.fn.blocks)
                for i in self.fn.insts():
                    self.val[i] = TOP
                return
            again = set()
            for i in b.insts:
                if i.op in ('store', 'unreachable', 'ret', 'fence'):
                    continue
                if i.op in ('br', 'switch'):
                    for s in self.out(i):
                        e = (b, s)
                        if e not in self.edges:
                            self.edges.add(e)
                            self.live.add(s)
                            again.add(s)
                    continue
                old = self.val.get(i)
                new = self.eval(i)
                if old is TOP:
                    continue
                if new is not TOP and old is not None:
                    new = new | old
                    if len(new) > LIMIT:
                        new = TOP
                if new != old:
                    self.val[i] = new
                    for u in users(self.fn, i):
                        if u.bb is not b and u.bb in self.live:
                            again.add(u.bb)
                        elif u.bb is b and u.op == 'phi':
                            again.add(b)
            for s in again:
                if s not in dirty:
                    dirty.add(s)
                    work.append(s)

    def out(self, i):
        if i.op == 'br':
            if len(i.succs) == 1:
                return i.succs
            c = self.get(i.ops[0])
            if c is TOP:
                return i.succs
            return [s for s, x in zip(i.succs, (1, 0)) if x in c] if c else []
        c = self.get(i.ops[0])
        if c is TOP:
            return i.succs
        w = width(i.ops[0].ty)
        table = {n & ((1 << w) - 1): s for n, s in i.cases}
        return [table.get(x, i.succs[0]) for x in c]

    def eval(self, i):
        k = self.p.of(i) if i.op in ('load', 'and', 'trunc', 'lshr') else None
        if k is not None and k in self.bind and width(i.ty):
            w = width(i.ty)
            return frozenset([self.bind[k] & ((1 << w) - 1)])
        op = i.op
        if op == 'phi':
            r = frozenset()
            for v, b in i.incoming:
                if (b, i.bb) in self.edges:
                    x = self.get(v)
                    if x is TOP:
                        return TOP
                    r |= x
            return r if len(r) <= LIMIT else TOP
        if op == 'load':
            return self.table(i.ops[0])
        if op == 'call':
            r = self.call(self, i) if self.call else None
            return TOP if r is None else r
        if op in ('bitcast', 'freeze'):
            return self.get(i.ops[0])
        if op == 'gep':
            if gepoff(self.mod, i) == 0:
                x = self.get(i.ops[0])
                return x if x is not TOP and all(not isinstance(y, int) for y in x) else TOP
            return TOP
        if op == 'select':
            c = self.get(i.ops[0])
            xs = [self.get(i.ops[1]), self.get(i.ops[2])]
            xs = [x for x, n in zip(xs, (1, 0)) if c is TOP or n in c]
            r = frozenset()
            for x in xs:
                if x is TOP:
                    return TOP
                r |= x
            return r
        if op in ('zext', 'sext', 'trunc'):
            x = self.get(i.ops[0])
            if x is TOP:
                return self.bits(i.ops[0], 0, width(i.ty)) if op == 'trunc' and width(i.ty) else TOP
            w0, w1 = width(i.ops[0].ty), width(i.ty)
            if not w0 or not w1:
                return TOP
            return frozenset((sgn(n, w0) if op == 'sext' else n) & ((1 << w1) - 1) for n in x if isinstance(n, int))
        if op == 'icmp':
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            w = width(i.ops[0].ty)
            if a is TOP or b is TOP:
                return frozenset([0, 1]) if self.some(a) and self.some(b) else frozenset()
            r = set()
            for x in a:
                for y in b:
                    if isinstance(x, int) and isinstance(y, int) and w:
                        r.add(int(PRED[i.pred](x, y, w)))
                    elif i.pred in ('eq', 'ne'):
                        if isinstance(x, int) and isinstance(y, int) or isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0 \
                                or not isinstance(x, int) and not isinstance(y, int):
                            r.add(int((x == y) == (i.pred == 'eq')))
                        else:
                            return frozenset([0, 1])
                    else:
                        return frozenset([0, 1])
            return frozenset(r)
        w = width(i.ty)
        if w and op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem'):
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if op == 'and' and 'undef' in (i.ops[0].kind, i.ops[1].kind):       # the unset rest of a word whose fields are set one by one
                return frozenset([0])
            if op == 'and' and (a == frozenset([0]) or b == frozenset([0])):
                return frozenset([0])
            if a is TOP or b is TOP:
                return TOP if self.some(a) and self.some(b) else frozenset()
            r = set()
            for x in a:
                for y in b:
                    if not isinstance(x, int) or not isinstance(y, int):
                        return TOP
                    try:
                        n = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << min(y, 64),
                             'lshr': lambda: x >> y, 'ashr': lambda: sgn(x, w) >> y, 'and': lambda: x & y, 'or': lambda: x | y,
                             'xor': lambda: x ^ y, 'udiv': lambda: x // y, 'urem': lambda: x % y}[op]()
                    except ZeroDivisionError:
                        continue
                    r.add(n & ((1 << w) - 1))
                    if len(r) > LIMIT:
                        return TOP
            return frozenset(r)
        return TOP

    def bits(self, v, lo, w, d=0):
        """the bits [lo, lo+w) of v, when v is put together from parts and only one of them counts"""
        x = self.get(v)
        if x is not TOP:
            return frozenset(n >> lo & (1 << w) - 1 for n in x if isinstance(n, int))
        if v.kind == 'inst' and d < 12:
            if v.op == 'or':
                for a, b in (v.ops, v.ops[::-1]):
                    if Paths.zero(a, lo, w):
                        return self.bits(b, lo, w, d + 1)
            if v.op == 'and' and v.ops[1].kind == 'int' and (v.ops[1].n >> lo) & ((1 << w) - 1) == (1 << w) - 1 or v.op == 'trunc':
                return self.bits(v.ops[0], lo, w, d + 1)
            if v.op == 'zext' and lo + w <= (width(v.ops[0].ty) or 0):
                return self.bits(v.ops[0], lo, w, d + 1)
        return TOP

    @staticmethod
    def some(a):
        return a is TOP or len(a) > 0

    def table(self, ptr):
        """load from a constant table at known indices"""
        if ptr.kind == 'inst' and ptr.op == 'gep' and ptr.ops[0].kind == 'global':
            g = ptr.ops[0]
        elif ptr.kind == 'global':
            g = ptr
        else:
            return TOP
        if not g.const or g.init is None:
            return TOP
        els = [g.init]
        if ptr.kind == 'inst':
            idx = [self.get(o) for o in ptr.ops[1:]]
            if any(x is TOP for x in idx) or idx[0] != frozenset([0]):
                return TOP
            for s in idx[1:]:
                nxt = []
                for e in els:
                    for n in s:
                        if e.elems is None:
                            if e.kind == 'zero':
                                nxt.append(e)
                                continue
                            return TOP
                        if n < len(e.elems):
                            nxt.append(e.elems[n])
                els = nxt
        r = frozenset()
        for e in els:
            if e.kind == 'zero':
                r |= frozenset([0])
                continue
            x = self.get(e) if not isinstance(e, int) else frozenset([e])
            if x is TOP:
                return TOP
            r |= x
        return r


def users(fn, i):
    if i._users is None:
        for x in fn.insts():
            x._users = []
        for x in fn.insts():
            for o in {id(o): o for o in x.ops}.values():
                if o.kind == 'inst' and o._users is not None:
                    o._users.append(x)
    return i._users
