"""Function-pointer resolution: flow-insensitive, field-based propagation of function addresses."""


def const_funcs(v, out, seen):
    if v is None or id(v) in seen:
        return
    seen.add(id(v))
    if v.kind == 'func':
        out.add(v)
    for e in (getattr(v, 'elems', None) or []):
        const_funcs(e, out, seen)
    if v.kind == 'cexpr':
        for e in v.ops or []:
            const_funcs(e, out, seen)


class FuncPtrs:
    def __init__(self, mod):
        self.mod = mod
        self.v = {}       # SSA value -> frozenset of Func
        self.c = {}       # cell -> set of Func
        self.r = {}       # func -> set
        self.solve()

    def innermost(self, inst):
        ty = inst.srcty
        r = None
        for o in inst.ops[2:]:
            if ty and ty.startswith('%') and self.mod.structs.get(ty) and o.kind == 'int':
                r = (ty, o.n)
                ty = self.mod.structs[ty][o.n]
            elif ty and ty.startswith('['):
                ty = ty[1:-1].split(' x ', 1)[1]
            else:
                ty = None
        return r

    def root(self, v, d=0):
        while v.kind == 'inst' and v.op in ('gep', 'bitcast') and d < 10:
            v = v.ops[0]
            d += 1
        if v.kind == 'cexpr' and v.ops:
            return self.root(v.ops[0], d + 1) if d < 10 else v
        return v

    def cells(self, v, d=0):
        out = set()
        k = v.kind
        if d > 5:
            return out
        if k == 'arg':
            out.add(('arg', v.fn.name, v.idx))
        elif k == 'global':
            out.add(('g', v.name))
        elif k == 'cexpr' and v.ops:
            return self.cells(v.ops[0], d + 1)
        elif k == 'inst':
            if v.op == 'alloca':
                out.add(('al', v.fn.name, v.idx))
            elif v.op == 'gep':
                r = self.innermost(v)
                if r is not None:
                    out.add(('fld',) + r)
                rt = self.root(v)
                if rt.kind == 'global':
                    out.add(('g', rt.name))
                elif r is None:
                    out |= self.cells(v.ops[0], d + 1)
            elif v.op in ('phi', 'select'):
                for o in (v.ops if v.op == 'phi' else v.ops[1:]):
                    if o is not v:
                        out |= self.cells(o, d + 1)
            elif v.op == 'load':
                for c in self.cells(v.ops[0], d + 1):
                    out.add(('at', c) if c[0] != 'at' else c)
        return out

    def get(self, v):
        if v.kind == 'func':
            return {v}
        if v.kind in ('cexpr', 'agg'):
            s = set()
            if v.kind == 'cexpr' and v.op == 'gep':
                return s
            const_funcs(v, s, set())
            return s
        return self.v.get(v, ())

    def add(self, d, k, s):
        if not s:
            return False
        o = d.get(k)
        if o is None:
            d[k] = set(s)
            return True
        n = len(o)
        o.update(s)
        return len(o) != n

    def solve(self):
        m = self.mod
        for g in m.globals.values():
            if g.init is None:
                continue
            s = set()
            const_funcs(g.init, s, set())
            if s:
                self.c[('g', g.name)] = s
            self._init_fields(g.init)
        ins = [i for f in m.defined() for i in f.insts()
               if i.op in ('store', 'phi', 'select', 'ret', 'call', 'load', 'bitcast')]
        ch = True
        n = 0
        while ch and n < 40:
            ch = False
            n += 1
            for i in ins:
                op = i.op
                if op == 'load':
                    if i.ty == 'ptr':
                        for c in self.cells(i.ops[0]):
                            if c in self.c:
                                ch |= self.add(self.v, i, self.c[c])
                elif op == 'store':
                    s = self.get(i.ops[0])
                    if s:
                        for c in self.cells(i.ops[1]):
                            ch |= self.add(self.c, c, s)
                elif op in ('phi', 'bitcast'):
                    if i.ty == 'ptr':
                        for o in i.ops:
                            ch |= self.add(self.v, i, self.get(o))
                elif op == 'select':
                    if i.ty == 'ptr':
                        for o in i.ops[1:]:
                            ch |= self.add(self.v, i, self.get(o))
                elif op == 'ret':
                    if i.ops:
                        ch |= self.add(self.r, i.fn, self.get(i.ops[0]))
                elif op == 'call':
                    ts = [i.callee] if i.callee.kind == 'func' else self.v.get(i.callee, ())
                    for t in list(ts):
                        if t.decl:
                            if t.name.startswith(('llvm.memcpy', 'llvm.memmove')):
                                d, s_ = self.cells(i.ops[0]), self.cells(i.ops[1])
                                u = set()
                                for c in s_:
                                    u |= self.c.get(c, set())
                                for c in d:
                                    ch |= self.add(self.c, c, u)
                            continue
                        for a, o in zip(t.args, i.ops):
                            if a.ty != 'ptr':
                                continue
                            ch |= self.add(self.v, a, self.get(o))
                            ac = ('arg', t.name, a.idx)
                            for c in self.cells(o):
                                if c[0] in ('al', 'arg', 'g', 'at'):
                                    ch |= self.add(self.c, ac, self.c.get(c, ()))
                                    ch |= self.add(self.c, c, self.c.get(ac, ()))
                        if i.ty == 'ptr':
                            ch |= self.add(self.v, i, self.r.get(t, ()))

    def _init_fields(self, init):
        if init.kind == 'agg':
            sty = init.ty
            for k, e in enumerate(init.elems):
                if sty.startswith('%') and e.kind == 'func':
                    self.add(self.c, ('fld', sty, k), {e})
                self._init_fields(e)
