"""Transitive may-write summaries: which struct fields / scalar types a function may store to."""
from common import strip_dot


class Mods:
    __slots__ = ('flds', 'tys', 'all', 'params', 'pcalls')

    def __init__(self):
        self.flds, self.tys, self.all = set(), set(), False
        self.params = set()         # (index, type): scalars stored through a pointer parameter
        self.pcalls = set()         # parameters that are called

    def size(self):
        return (len(self.flds), len(self.tys), self.all, len(self.params), len(self.pcalls))

    def merge(self, o, actuals, resolve):
        """effects of a callee whose pointer parameters were given the values `actuals`"""
        n = self.size()
        self.flds |= o.flds
        self.tys |= o.tys
        self.all |= o.all
        for k, ty in list(o.params):
            self.through(actuals[k] if k < len(actuals) else None, ty)
        for k, ret, tys, given in list(o.pcalls):
            a = actuals[k] if k < len(actuals) else None
            if a is None or isinstance(a, tuple):
                self.all = True
            elif a.kind == 'arg':
                self.pcalls.add((a.idx, ret, tys, given))
            else:
                for m in resolve(a, ret, tys):
                    self.merge(m, given, resolve)
        return n != self.size()

    def through(self, ptr, ty):
        """a scalar of type ty is stored at (or at some element from) ptr"""
        kind, what = ptr if isinstance(ptr, tuple) else target(ptr)
        if isinstance(ptr, tuple) and kind == 'arg':
            kind = 'any'        # (a parameter of the function that makes the call through the pointer)
        if kind == 'arg':
            self.params.add((what, ty))
        elif kind == 'fld':
            self.flds.add(what)
        elif kind == 'any':
            self.tys.add(ty)

    def hits(self, fld, ty):
        if self.all:
            return True
        if fld is not None:
            return fld in self.flds or ty in self.tys
        return ty in self.tys or bool(self.flds)


def innermost(mod, srcty, idxs):
    """(struct, field) addressed by gep indices after the first"""
    ty = srcty
    r = None
    for n in idxs:
        if ty and ty.startswith('%') and mod.structs.get(ty) and n is not None:
            r = (ty, n)
            ty = mod.structs[ty][n]
        elif ty and ty.startswith('['):
            ty = ty[1:-1].split(' x ', 1)[1]
        else:
            ty = None
    return r


def target(a):
    """what a pointer value denotes: ('local', -), ('arg', k), ('fld', (struct, field)) or ('any', -)"""
    fld = None
    while a is not None and a.kind == 'inst' and a.op in ('gep', 'bitcast'):
        if a.op == 'gep' and fld is None and len(a.ops) > 2:
            fld = innermost(a.fn.module if hasattr(a.fn, 'module') else _MOD[0], a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
        a = a.ops[0]
    if a is not None and a.kind == 'inst' and a.op == 'alloca':
        return 'local', None
    if fld is not None:
        return 'fld', fld
    if a is not None and a.kind == 'arg':
        return 'arg', a.idx
    return 'any', None


_MOD = [None]


class ModRef:
    def __init__(self, prog):
        self.prog = prog
        self.m = {}
        self.at = {}
        mod = prog.mod
        _MOD[0] = mod
        calls = {}
        for f in mod.defined():
            M = self.m[f.name] = Mods()
            if not prog.is_project(f):
                continue
            cs = calls[f.name] = []
            for i in f.insts():
                if i.op == 'store':
                    M.through(i.ops[1], i.ops[0].ty)
                elif i.op == 'call':
                    n = strip_dot(i.cname())
                    if n and (n.startswith('llvm.mem') or n in ('memcpy', 'memset', 'memmove', 'fread')):
                        b = i.ops[0]
                        d = 0
                        while b.kind == 'inst' and b.op == 'gep' and d < 9:
                            b = b.ops[0]
                            d += 1
                        if not (b.kind == 'inst' and b.op == 'alloca'):
                            self._memcpy(M, mod, i)
                        continue
                    if i.callee.kind == 'arg':
                        M.pcalls.add((i.callee.idx, i.ty, tuple(o.ty for o in i.ops), tuple(target(o) for o in i.ops)))
                        continue
                    for t in prog.targets(i):
                        if not t.decl and prog.is_project(t):
                            cs.append((t.name, i.ops))
        ch = True
        while ch:
            ch = False
            for f, cs in calls.items():
                for c, ops in cs:
                    if self.m[f].merge(self.m[c], ops, self.callees):
                        ch = True

    def callees(self, a, ret, tys):
        """summaries of the project functions a function pointer value may denote"""
        return [self.m[f.name] for f in self.prog.resolve(a, ret, tys) if not f.decl and f.name in self.m and self.prog.is_project(f)]

    def _memcpy(self, M, mod, i):
        """struct copy: the fields of the struct of that size are written; raw data otherwise"""
        a = i.ops[0]
        if a.kind == 'inst' and a.op == 'gep':
            r = innermost(mod, a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
            if r:
                sub = mod.structs[r[0]][r[1]]
                M.flds.add(r)
                self._sub(M, mod, sub)
                return
        M.tys.add('i8')
        n = i.ops[2]
        if n.kind == 'int':
            for s in mod.structs:
                if mod.structs[s] and mod.size_of(s) == n.n:
                    self._sub(M, mod, s)

    def _sub(self, M, mod, sty):
        if sty.startswith('%') and mod.structs.get(sty):
            for k, t in enumerate(mod.structs[sty]):
                M.flds.add((sty, k))
                self._sub(M, mod, t)

    def get(self, callee, inst=None):
        """None: unknown; a Mods: project function; False: external (touches only what it is handed)"""
        if callee.kind == 'func':
            if callee.decl or not self.prog.is_project(callee):
                return False
            m = self.m.get(callee.name)
            if m is not None and m.pcalls and inst is not None:
                r = self.at.get(inst)
                if r is None:
                    r = Mods()
                    r.flds, r.tys, r.all, r.params = set(m.flds), set(m.tys), m.all, set(m.params)
                    for k, ret, tys, given in m.pcalls:
                        a = inst.ops[k] if k < len(inst.ops) else None
                        if a is None:
                            r.all = True
                            continue
                        for c in self.callees(a, ret, tys):
                            r.merge(c, given, self.callees)
                    self.at[inst] = r
                return r
            return m
        return None
