"""Whole-program pointer-provenance analysis: which SSA values and memory cells may hold a pointer
into a given region (e.g. memory-mapped file data).

Flow-insensitive, field-based (one cell per struct type and field), one cell per local variable,
argument-pointee cells linked with the actual arguments; calls through pointers go to every
address-taken function of the same signature.
"""
from common import strip_dot

# pointer-returning libc functions whose result aliases argument k
ALIAS_RET = {'memchr': 0, 'strchr': 0, 'strrchr': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0, 'strstr': 0, 'memrchr': 0,
             'rawmemchr': 0, 'stpcpy': 0, 'strcpy': 0, 'strpbrk': 0, '__memcpy_chk': 0}


class Provenance:
    def __init__(self, prog):
        self.prog = prog
        self.mod = prog.mod
        self.vals = set()         # tainted SSA values (Inst/Arg/Global)
        self.cells = set()        # tainted cells
        self.rets = set()         # functions returning a tainted pointer
        self.why = {}
        self.funcs = [f for f in self.mod.defined()]
        self._cells = {}

    def innermost(self, inst):
        """(struct type, field) of the last struct step of a gep, or None"""
        ty = inst.srcty
        r = None
        for o in inst.ops[2:]:
            if ty and ty.startswith('%') and self.mod.structs.get(ty) and o.kind == 'int':
                r = (ty, o.n)
                ty = self.mod.structs[ty][o.n]
            elif ty and ty.startswith('['):
                ty = ty[1:-1].split(' x ', 1)[1]
            else:
                ty = None
        return r

    def cell(self, v, d=0):
        """set of abstract cells the pointer v may address"""
        key = v
        if d == 0 and key in self._cells:
            return self._cells[key]
        out = set()
        if d > 6:
            return out
        k = v.kind
        if k == 'arg':
            out.add(('arg', v.fn.name, v.idx))
        elif k == 'global':
            out.add(('g', v.name))
        elif k == 'cexpr' and v.ops:
            out |= self.cell(v.ops[0], d + 1)
        elif k == 'inst':
            if v.op == 'alloca':
                out.add(('al', v.fn.name, v.idx))
            elif v.op == 'gep':
                r = self.innermost(v)
                if r is not None:
                    out.add(('fld',) + r)
                    # a field of a local struct is also that local's cell when the type is anonymous
                else:
                    out |= self.cell(v.ops[0], d + 1)
            elif v.op in ('bitcast', 'inttoptr', 'freeze', 'addrspacecast'):
                out |= self.cell(v.ops[0], d + 1)
            elif v.op in ('phi', 'select'):
                for o in (v.ops if v.op == 'phi' else v.ops[1:]):
                    if o is not v:
                        out |= self.cell(o, d + 1)
            elif v.op == 'load':
                for c in self.cell(v.ops[0], d + 1):
                    out.add(('at', c) if c[0] != 'at' else c)
            elif v.op == 'call':
                out.add(('heap', v.fn.name, v.idx))
        if d == 0:
            self._cells[key] = out
        return out

    def mark(self, v, why):
        if v not in self.vals:
            self.vals.add(v)
            self.why[v] = why
            return True
        return False

    def solve(self, seed):
        """seed(inst) -> True when the instruction's result is a source"""
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for f in self.funcs:
                for i in f.insts():
                    if self.step(i, seed):
                        changed = True
            if rounds > 60:
                break
        self.rounds = rounds
        return self

    def step(self, i, seed):
        op = i.op
        V = self.vals
        ch = False
        if op == 'load':
            if i.ty == 'ptr' and i not in V:
                for c in self.cell(i.ops[0]):
                    if c in self.cells:
                        ch |= self.mark(i, ('cell', c))
        elif op == 'store':
            v = i.ops[0]
            if v in V and v.ty in ('ptr', 'i64'):
                for c in self.cell(i.ops[1]):
                    if c not in self.cells:
                        self.cells.add(c)
                        self.why[c] = i
                        ch = True
        elif op in ('gep', 'bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint'):
            if i.ops[0] in V:
                ch |= self.mark(i, i.ops[0])
        elif op in ('add', 'sub', 'and') and i.ty == 'i64':
            # pointer arithmetic on integers (alignment); a difference of two region pointers is no pointer
            a, b = i.ops[0] in V, i.ops[1] in V
            if a != b and (op != 'sub' or a):
                ch |= self.mark(i, i.ops[0] if a else i.ops[1])
        elif op == 'phi':
            if i not in V and any(o in V for o in i.ops):
                ch |= self.mark(i, [o for o in i.ops if o in V][0])
        elif op == 'select':
            if i not in V and (i.ops[1] in V or i.ops[2] in V):
                ch |= self.mark(i, i.ops[1] if i.ops[1] in V else i.ops[2])
        elif op == 'insertvalue' or op == 'extractvalue':
            if i.ops[0] in V or (op == 'insertvalue' and i.ops[1] in V):
                ch |= self.mark(i, i.ops[0] if i.ops[0] in V else i.ops[1])
        elif op == 'ret':
            if i.ops and i.ops[0] in V and i.fn not in self.rets:
                self.rets.add(i.fn)
                ch = True
        elif op == 'call':
            if seed(i):
                ch |= self.mark(i, 'source %s' % i.cname())
            n = strip_dot(i.cname())
            if n in ALIAS_RET and i.ops[ALIAS_RET[n]] in V:
                ch |= self.mark(i, i.ops[ALIAS_RET[n]])
            if i.callee.kind == 'func' and i.callee.decl:
                if n and n.startswith('llvm.mem') and n[8:11] in ('cpy', 'mov'):
                    # struct copies: cells by content are field-based already
                    src = self.cell(i.ops[1])
                    if any(c in self.cells for c in src if c[0] in ('al', 'heap', 'arg', 'at')):
                        for c in self.cell(i.ops[0]):
                            if c not in self.cells:
                                self.cells.add(c)
                                self.why[c] = i
                                ch = True
                return ch
            for t in self.prog.targets(i):
                if t.decl:
                    continue
                for a, o in zip(t.args, i.ops):
                    if o in V:
                        ch |= self.mark(a, i)
                    if a.ty == 'ptr' and o.kind in ('inst', 'arg', 'global'):
                        ac = ('arg', t.name, a.idx)
                        for c in self.cell(o):
                            if c in self.cells and ac not in self.cells and c[0] != 'fld':
                                self.cells.add(ac)
                                self.why[ac] = i
                                ch = True
                            if ac in self.cells and c not in self.cells:
                                self.cells.add(c)
                                self.why[c] = i
                                ch = True
                            if c[0] == 'fld' and c in self.cells and ac not in self.cells:
                                self.cells.add(ac)
                                self.why[ac] = i
                                ch = True
                if t in self.rets:
                    ch |= self.mark(i, t)
        return ch

    def explain(self, v, n=8):
        out = []
        while v is not None and n > 0:
            n -= 1
            w = self.why.get(v)
            if isinstance(w, str):
                out.append(w + ' at ' + v.loc())
                break
            if isinstance(w, tuple):
                c = w[1]
                out.append('loaded from %s' % self.cellname(c))
                st = self.why.get(c)
                if st is None:
                    break
                out.append('stored at %s:%s' % (st.loc(), st.fn.name))
                v = st.ops[0] if st.op == 'store' else None
                continue
            if w is None:
                break
            if w.kind == 'func':
                out.append('returned by %s' % w.name)
                r = [t.ops[0] for t in w.rets() if t.ops and t.ops[0] in self.vals]
                v = r[0] if r else None
                continue
            if v.kind == 'arg':
                out.append('passed at %s:%s' % (w.loc(), w.fn.name))
                v = w.ops[v.idx] if v.idx < len(w.ops) else None
                continue
            v = w
        return ' <- '.join(out)

    def cellname(self, c):
        if c[0] == 'fld':
            return '%s.%s' % (c[1].replace('%struct.', ''), self.prog.struct_field(c[1], c[2]))
        return ':'.join(str(x) for x in c)
