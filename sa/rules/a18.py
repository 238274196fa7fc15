"""A18: text is read with the width it has, and made narrower only after all of its characters were found to fit.

Every pointer to the characters of a string (PyUnicode_DATA under each kind the object may have, strings and unicode values of files) is
followed through the function it is taken in (static helpers inlined, one evaluation per kind, only over the paths that pass the place it is
taken at) and, by summaries, through the functions it is given to.  Characters have to be read with the width of the string, extended without
sign, and be cut only where a test of the whole string is known to have succeeded."""
from common import Program, AnalysisBroken, strip_dot
from tags import Paths, Run, TOP, width

FILES = {'pointless_reader_unicode_value_ucs4': 32, 'pointless_reader_string_value_ascii': 8}
# (argument, width) of what the C library and Python read
EXT = {'strlen': {0: 8}, 'strcmp': {0: 8, 1: 8}, 'strncmp': {0: 8, 1: 8}, 'strcpy': {1: 8}, 'strncpy': {1: 8}, 'strdup': {0: 8}, 'atoi': {0: 8},
       'PyUnicode_FromString': {0: 8}, 'PyUnicode_FromStringAndSize': {0: 8}, 'PyBytes_FromString': {0: 8}, 'PyUnicode_DecodeLatin1': {0: 8},
       'PyUnicode_DecodeASCII': {0: 8}, 'PyUnicode_DecodeUTF8': {0: 8}, 'PyBytes_FromStringAndSize': {0: 8}, 'wcslen': {0: 32}}


def part(i):
    """the value an extractvalue takes out of an aggregate put together before"""
    v = i.ops[0]
    while v.kind == 'inst' and v.op == 'insertvalue':
        if v.indices == i.indices:
            return v.ops[1]
        v = v.ops[0]
    return None


class R(Run):
    """evaluation limited to some blocks, with given values of characters"""

    def __init__(self, paths, bind, call=None, allowed=None, chars=None, n=0):
        self.allowed, self.chars, self.n = allowed, chars or (), n
        super().__init__(paths, bind, call)

    def out(self, i):
        s = super().out(i)
        return s if self.allowed is None else [x for x in s if x in self.allowed]

    def eval(self, i):
        if i in self.chars:
            return frozenset([self.n & ((1 << width(i.ty)) - 1)])
        if i.op == 'extractvalue':
            v = part(i)
            return TOP if v is None else self.get(v)
        return super().eval(i)


def reach(fn, b):
    """blocks on a path through b"""
    def go(start, nxt):
        seen, work = {start}, [start]
        while work:
            for s in nxt(work.pop()):
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return seen
    return go(b, lambda x: x.succs()) | go(b, lambda x: x.preds)


def derived(fn, roots, run=None):
    """pointers into the same text"""
    d = set(roots)
    ch = True
    while ch:
        ch = False
        for i in fn.insts():
            if i in d or run is not None and i.bb not in run.live:
                continue
            if i.op in ('gep', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr') and i.ops[0] in d or i.op == 'select' and (i.ops[1] in d or i.ops[2] in d) \
                    or i.op == 'extractvalue' and part(i) in d \
                    or i.op in ('add', 'sub') and i.ops[0] in d and i.ty == i.ops[0].ty and i.ops[0].kind == 'inst' and i.ops[0].op != 'load' \
                    or i.op == 'phi' and any(v in d and (run is None or (b, i.bb) in run.edges) for v, b in i.incoming):
                d.add(i)
                ch = True
    return d


class Text:
    def __init__(self, prog):
        self.prog, self.mod = prog, prog.mod
        self.paths = {}
        self.memo = {}
        self.tests = {}

    def p(self, fn):
        if fn not in self.paths:
            self.paths[fn] = Paths(self.mod, fn)
        return self.paths[fn]

    def events(self, fn, roots, run):
        """what is done with the characters at roots: (kind, a, b, place)"""
        d = derived(fn, roots, run)
        out = []
        chars = {}
        for i in fn.insts():
            if i.bb not in run.live:
                continue
            if i.op == 'load' and i.ops[0] in d and width(i.ty):
                out.append(('read', width(i.ty), 0, i))
                chars[i] = width(i.ty)
            elif i.op == 'call':
                for j, o in enumerate(i.ops):
                    if o in d:
                        out += self.passed(fn, i, j)
        ch = True
        while ch:
            ch = False
            for i in fn.insts():
                if i in chars or i.bb not in run.live:
                    continue
                if i.op in ('zext', 'phi', 'select', 'freeze', 'trunc', 'sext'):
                    src = [v for v, b in i.incoming if (b, i.bb) in run.edges] if i.op == 'phi' else i.ops[1:] if i.op == 'select' else i.ops
                    ws = [chars[v] for v in src if v in chars]
                    if not ws or not width(i.ty):
                        continue
                    w = max(ws)
                    if i.op == 'trunc' and width(i.ty) < w:
                        out.append(('cut', w, width(i.ty), i))
                        continue
                    if i.op == 'sext' and width(i.ops[0].ty) <= w:
                        out.append(('sign', w, 0, i))
                        continue
                    chars[i] = w
                    ch = True
                elif i.op == 'and' and i.ops[0] in chars and i.ops[1].kind == 'int':
                    w, n = chars[i.ops[0]], i.ops[1].n & ((1 << width(i.ty)) - 1)
                    if n & ((1 << w) - 1) == (1 << w) - 1:
                        chars[i] = w
                        ch = True
                    elif n & (n + 1) == 0 and n > 1 and not self.only_tested(fn, i):
                        out.append(('cut', w, n.bit_length(), i))
                        chars[i] = w
                elif i.op == 'icmp' and i.pred[0] == 's' and any(o in chars and width(o.ty) == chars[o] for o in i.ops) and \
                        not any(o in chars and chars[o] == 32 for o in i.ops):
                    if ('sign', chars.get(i.ops[0], 0), 0, i) not in out:
                        out.append(('sign', chars.get(i.ops[0], 0), 0, i))
        return out

    @staticmethod
    def only_tested(fn, i):
        us = [u for u in fn.insts() if i in u.ops]
        return all(u.op == 'icmp' for u in us)

    def passed(self, fn, i, j):
        c = i.callee
        name = strip_dot(i.cname() or '')
        if name == 'PyUnicode_FromKindAndData':
            k = i.ops[0]
            return [('read', 8 * k.n, 0, i)] if k.kind == 'int' and j == 1 else []
        if c.kind == 'func' and c.decl or name.startswith('llvm.'):
            w = EXT.get(name, {}).get(j)
            return [('read', w, 0, i)] if w else []
        out = []
        for t in self.prog.targets(i):
            if not t.decl and self.prog.is_project(t) and j < len(t.args):
                out += self.summary(t, j)
        return out

    def summary(self, fn, j):
        k = (fn, j)
        if k not in self.memo:
            self.memo[k] = []
            roots = {fn.args[j]}
            self.memo[k] = self.guarded(fn, roots, {}, None)
        return self.memo[k]

    def guarded(self, fn, roots, bind, allowed):
        """events, without the cuts that cannot be reached when the text does not fit"""
        run = R(self.p(fn), bind, None, allowed)
        ev = self.events(fn, roots, run)
        for b in sorted({e[2] for e in ev if e[0] == 'cut'}):
            d = derived(fn, roots)
            ts = {i for i in fn.insts() if i.op == 'call' and i.callee.kind == 'func' and i.ops and i.ops[0] in d and b in self.tests.get(i.callee.name, ())}
            if ts:
                live = self.events(fn, roots, R(self.p(fn), bind, lambda r, i: frozenset([0]) if i in ts else None, allowed))
                ev = [e for e in ev if not (e[0] == 'cut' and e[2] == b) or e in live]
        return [e for e in ev if e[0] == 'read' or e[3].fn is not fn or not self.char_guarded(fn, e, bind, allowed)]

    def char_guarded(self, fn, e, bind, allowed):
        """the character itself was found to be small before"""
        seen, work, loads = set(), list(e[3].ops), set()
        while work:
            v = work.pop()
            if v.kind == 'inst' and v not in seen:
                seen.add(v)
                if v.op == 'load':
                    loads.add(v)
                elif v.op in ('zext', 'sext', 'phi', 'select', 'freeze', 'trunc', 'and'):
                    work += [x for x, b in v.incoming] if v.op == 'phi' else v.ops
        ptrs = {i.ops[0] for i in loads}
        if len(ptrs) != 1:
            return False
        loads = {i for i in fn.insts() if i.op == 'load' and i.ops[0] in ptrs}
        low = e[2] if e[0] == 'cut' else e[1] - 1
        return all(e[3].bb not in R(self.p(fn), bind, None, allowed, loads, n).live for n in (1 << low, (1 << e[1]) - 1))

    def find_tests(self):
        """functions that tell whether all characters are below a limit"""
        for fn in self.prog.funcs:
            if len(fn.args) != 1 or not (fn.retty if isinstance(fn.retty, str) else '').startswith('i') or not fn.rets():
                continue
            if any(i.op == 'store' or i.op == 'call' and i.callee.kind == 'func' and i.callee.decl and not i.cname().startswith('llvm.') for i in fn.insts()):
                continue
            d = derived(fn, {fn.args[0]})
            loads = {i for i in fn.insts() if i.op == 'load' and i.ops[0] in d and width(i.ty)}
            ws = {width(i.ty) for i in loads}
            if len(ws) != 1 or not ws <= {16, 32}:
                continue
            w = ws.pop()

            def result(n):
                r = R(self.p(fn), {}, None, None, loads, n)
                rs = [r.get(x.ops[0]) for x in fn.rets() if x.bb in r.live]
                vals = None if any(x is TOP for x in rs) else frozenset().union(*rs) if rs else frozenset()
                open_ = any(x.op in ('br', 'switch') and x.bb in r.live and len(set(x.succs)) > 1 and r.get(x.ops[0]) is not None and
                            (r.get(x.ops[0]) is TOP or len(r.get(x.ops[0])) > 1) for x in fn.insts())
                return vals, open_
            lo, hi = result(0), result((1 << w) - 1)
            if hi[0] is None or lo[0] is None or 0 not in hi[0] and hi[0] or not lo[0] or 0 in lo[0] and not lo[1]:
                continue
            mid = result(65)
            if mid[0] and not mid[1]:        # an answer that does not depend on the rest of the text
                continue
            for b in (8, 16):
                if b < w and all(result(n)[0] is not None and 0 in result(n)[0] and (result(n)[0] == frozenset([0]) or result(n)[1])
                                 for n in (1 << b, (1 << b) + 65, (1 << w) - 1)):
                    self.tests.setdefault(fn.name, set()).add(b)


def kinds(t, fn, x):
    """paths of the kind of the Python string at path x"""
    out = set()
    want = ('ld', (('as', x, 'PyASCIIObject'), 32))
    for i in fn.insts():
        if i.op in ('and', 'trunc', 'lshr', 'load'):
            p = t.p(fn).of(i)
            q = p[0]
            if isinstance(q, tuple) and q and q[0] == 'and' and isinstance(q[1][0], tuple) and q[1][0][0] == 'lshr':
                base, sh, mask = q[1][0][1][0], q[1][0][2][0], q[2][0]
                if sh == ('k', 2) and mask == ('k', 7) and isinstance(base, tuple) and base[0] == 'ld' and same(base[1], x):
                    out.add(p)
    return out


def same(addr, x):
    """is addr the address of the state of the string at x"""
    if addr[1] != 32:
        return False
    r = addr[0]
    if isinstance(r, tuple) and r and r[0] == 'as':
        r = r[1]
        return (r, 0) == x or r == x or (isinstance(r, tuple) and r == x[0] and x[1] == 0)
    return r == x[0] and x[1] == 0


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('width typing of text pointers: reads, extensions and cuts of characters, per kind of string, evaluated by conditional constant '
                'propagation over the paths through the place where the pointer is taken, with function summaries; tests that guard cuts are recognised '
                'by what they answer')
    p0 = Program(inline=False)
    t0 = Text(p0)
    t0.find_tests()
    cutters = set()
    for fn in p0.funcs:
        for a in fn.args:
            if a.ty == 'ptr' and any(e[0] == 'cut' for e in t0.events(fn, {a}, R(t0.p(fn), {}))):
                cutters.add(fn.name)
                break
    prog = Program(inline=True, keep=set(t0.tests) | set(FILES))
    t = Text(prog)
    t.find_tests()
    rep.count('tests of whole strings', len(t.tests))
    for fn in prog.funcs:
        if strip_dot(fn.name) in FILES:
            continue
        srcs = []
        for i in fn.insts():
            if i.op == 'call' and i.callee.kind == 'func':
                n = strip_dot(i.cname())
                if n == 'PyUnicode_DATA':
                    x = t.p(fn).of(i.ops[0])
                    ks = kinds(t, fn, x)
                    for k in (1, 2, 4):
                        srcs.append((i, {p: k for p in ks}, 8 * k, 'a string of kind %d' % k))
                elif n in FILES:
                    srcs.append((i, {}, FILES[n], 'a %s of a file' % ('string' if FILES[n] == 8 else 'unicode value')))
        for i, bind, w, what in srcs:
            allowed = reach(fn, i.bb)
            r = R(t.p(fn), bind, None, allowed)
            if i.bb not in r.live:
                continue
            rep.count('texts examined')
            evs = t.guarded(fn, {i}, bind, allowed)
            rep.count('uses of characters', len(evs))
            bad = False
            for e in evs:
                if e[0] == 'read' and e[1] != w:
                    bad = True
                    rep.bad('width:%s:%d:%s' % (fn.name, w, e[3].fn.name), '%s in %s: the characters of %s taken at line %d of %s are read with %d bits instead of %d' % (
                        e[3].loc(), e[3].fn.name, what, i.line, fn.name, e[1], w))
                elif e[0] == 'cut' and e[2] < w and e[1] >= w:
                    bad = True
                    rep.bad('cut:%s:%d:%s' % (fn.name, w, e[3].fn.name), '%s in %s: characters of %s taken at line %d of %s are cut to %d bits without a test of all of them' % (
                        e[3].loc(), e[3].fn.name, what, i.line, fn.name, e[2]))
                elif e[0] == 'sign':
                    bad = True
                    rep.bad('sign:%s:%d:%s' % (fn.name, w, e[3].fn.name), '%s in %s: a character of %s taken at line %d of %s is treated as a signed number' % (
                        e[3].loc(), e[3].fn.name, what, i.line, fn.name))
            if not bad:
                rep.ok()
    rep.floor('texts examined', 15)
    rep.floor('uses of characters', 20)
    rep.assumptions = ['PyUnicode_KIND/PyUnicode_DATA describe the string (CPython)', 'callers of the C writing API pass strings that fit to the *_string_* functions']
