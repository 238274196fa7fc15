"""Error channels: where a function leaves an error message for its caller.

A channel of a function is (k, kind, off):
   direct  the message pointer is stored to *arg[k]                    (const char** error)
   field   it is stored to the field at offset off of *arg[k]          (state->error = "...")
   ind     it is stored through the pointer held in that field         (*state->error = "...")
Found from constant strings stored there, and from arguments handed on to such parameters.
"""
from common import strip_dot


def is_cstring_addr(v):
    """address of a constant string"""
    if v.kind == 'cexpr' and v.op == 'gep':
        v = v.ops[0]
    return v.kind == 'global' and v.const and v.init is not None and (v.init.text is not None or v.init.kind == 'zero') and v.valty.startswith('[')


class Channels:
    def __init__(self, prog):
        self.prog = prog
        self.mod = prog.mod
        self.c = {}
        for f in prog.funcs:
            for i in f.insts():
                if i.op == 'store' and is_cstring_addr(i.ops[0]):
                    d = self.addr(i.ops[1])
                    if d:
                        self.add(f, d)
        ch = True
        while ch:
            ch = False
            for f in prog.funcs:
                for i in f.insts():
                    if i.op == 'store' and i.ops[0].ty == 'ptr' and i.ops[0].kind == 'inst' and self.local_msg(f, i.ops[0]):
                        d = self.addr(i.ops[1])
                        if d:
                            ch |= self.add(f, d)
                    if i.op != 'call':
                        continue
                    for t in prog.targets(i):
                        for k, kind, off in list(self.c.get(t.name, ())):
                            if k >= len(i.ops):
                                continue
                            d = self.compose(i.ops[k], kind, off)
                            if d:
                                ch |= self.add(f, d)

    def add(self, f, d):
        s = self.c.setdefault(f.name, set())
        if d in s or len(s) > 6:
            return False
        s.add(d)
        return True

    def of(self, f):
        return tuple(sorted(self.c.get(f.name, ())))

    def ptr(self, v):
        """(arg index, byte offset) of a pointer into *arg, or None"""
        v, off = self.base(v)
        if v is None:
            return None
        return (v.idx, off) if v.kind == 'arg' else None

    def addr(self, a):
        """channel addressed by a store"""
        r = self.ptr(a)
        if r:
            return (r[0], 'direct' if r[1] == 0 and a.kind == 'arg' else 'field', r[1])
        if a.kind == 'inst' and a.op == 'load' and a.ty == 'ptr':
            r = self.ptr(a.ops[0])
            if r:
                return (r[0], 'ind', r[1])
        return None

    def local_msg(self, f, v):
        """is v the message read back from a local cell some callee may have written"""
        work, seen = [v], set()
        while work:
            v = work.pop()
            if v in seen or v.kind != 'inst':
                continue
            seen.add(v)
            if v.op in ('phi', 'select'):
                work.extend(v.ops if v.op == 'phi' else v.ops[1:])
            elif v.op == 'load':
                b, off = self.base(v.ops[0])
                if b is not None and b.kind == 'inst' and b.op == 'alloca' and (b, off) in self.locals(f):
                    return True
        return False

    def locals(self, f):
        out = set()
        for i in f.insts():
            if i.op == 'call':
                for t in self.prog.targets(i):
                    for k, kind, off in self.c.get(t.name, ()):
                        if kind != 'ind' and k < len(i.ops):
                            b, o = self.base(i.ops[k])
                            if b is not None and b.kind == 'inst' and b.op == 'alloca':
                                out.add((b, o + off))
        return out

    def base(self, v):
        off = 0
        while v.kind == 'inst' and v.op == 'gep':
            d = self.gepoff(v)
            if d is None:
                return None, 0
            off += d
            v = v.ops[0]
        return v, off

    def gepoff(self, v):
        cs = [o.n if o.kind == 'int' else None for o in v.ops[1:]]
        if None in cs:
            return None
        sz = self.mod.size_of(v.srcty)
        if sz is None:
            return None
        off = cs[0] * sz
        ty = v.srcty
        for c in cs[1:]:
            if ty.startswith('%') and self.mod.structs.get(ty):
                off += self.mod.field_off(ty, c)
                ty = self.mod.structs[ty][c]
            elif ty.startswith('['):
                ty = ty[1:-1].split(' x ', 1)[1]
                off += c * (self.mod.size_of(ty) or 0)
            else:
                return None
        return off

    def compose(self, o, kind, off):
        if kind == 'direct':
            return self.addr(o)
        r = self.ptr(o)
        if r:
            return (r[0], kind, r[1] + off)
        if kind == 'ind':
            # local state whose error pointer is our own parameter
            while o.kind == 'inst' and o.op == 'gep':
                o = o.ops[0]
            if o.kind == 'inst' and o.op == 'alloca':
                for u in o.fn.insts():
                    if u.op == 'store' and u.ops[0].kind == 'arg' and u.ops[0].ty == 'ptr':
                        b, n = u.ops[1], 0
                        while b.kind == 'inst' and b.op == 'gep':
                            if n == 0:
                                cs = [x.n if x.kind == 'int' else None for x in b.ops[1:]]
                            n += 1
                            b = b.ops[0]
                        if b is o and n == 1 and len(cs) == 2 and u.ops[1].srcty in self.mod.structs and \
                                self.mod.field_off(u.ops[1].srcty, cs[1]) == off:
                            return (u.ops[0].idx, 'direct', 0)
        return None

    def status(self, f):
        """'bool' when every returned constant is 0/1 (0 = failure), 'ptr' when a pointer is returned,
        'void', or 'value'"""
        if f.retty == 'void':
            return 'void'
        if f.retty == 'ptr':
            return 'ptr'
        if f.retty not in ('i32', 'i1', 'i8', 'i64'):
            return 'value'
        return 'bool' if self._bools(f, set()) else 'value'

    def _bools(self, f, seen):
        if f.name in seen:
            return True
        seen.add(f.name)
        if f.decl:
            return False
        for r in f.rets():
            if not self._vbool(r.ops[0], seen, set()):
                return False
        return True

    def _vbool(self, v, seen, vs):
        if v in vs:
            return True
        vs.add(v)
        if v.kind == 'int':
            return v.n in (0, 1)
        if v.kind == 'undef':
            return True
        if v.kind == 'inst':
            if v.op in ('phi', 'select'):
                return all(self._vbool(o, seen, vs) for o in (v.ops if v.op == 'phi' else v.ops[1:]))
            if v.op == 'zext' and v.ops[0].ty == 'i1':
                return True
            if v.op == 'icmp':
                return True
            if v.op == 'call':
                ts = self.prog.targets(v)
                return bool(ts) and all(self._bools(t, seen) for t in ts)
            if v.op in ('and', 'or'):
                return all(self._vbool(o, seen, vs) for o in v.ops)
        return False
