"""A02: a file is published atomically: complete, flushed and synced under a temporary name, then renamed."""
import engine
from engine import Engine, Client, K0
from common import Program, AnalysisBroken, strip_dot, cstr, sccs
from rules import failrun

PUBLISH = {'rename', 'renameat', 'renameat2', 'link', 'linkat'}
SYSCALLS = {'mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64', 'fdopen', 'fflush', 'fsync', 'fdatasync', 'fchmod', 'fclose', 'close', 'unlink', 'unlinkat', 'remove'} | PUBLISH
DATA_WRITERS = {'fwrite', 'fputs', 'fputc', 'putc', 'write', 'pwrite', 'writev', 'fwrite_unlocked', 'fprintf', 'vfprintf'}
CREATORS = {'open', 'open64', 'openat', 'creat', 'fopen', 'fopen64', 'freopen', 'truncate', 'ftruncate', 'truncate64', 'ftruncate64', 'tmpfile', 'symlink', 'mkfifo', 'mknod'}
WRITE_MODES = ('w', 'a', '+', 'x')

# ps: (temp name, temp state, fd, fd open, FILE, FILE open, dirty, flushed, synced, renamed, failed)
FIELDS = ('name', 'temp', 'fd', 'fdopen', 'f', 'fopen', 'written', 'dirty', 'flushed', 'synced', 'renamed', 'failed', 'namelive')


def g(ps, k):
    return ps[FIELDS.index(k)]


def u(ps, **kw):
    l = list(ps)
    for k, v in kw.items():
        l[FIELDS.index(k)] = v
    return tuple(l)


class Publish(Client):
    def __init__(self, rep, prog, tag, writers):
        self.rep, self.prog, self.tag, self.writers = rep, prog, tag, writers
        self.events = {}
        self.rets = 0

    def start(self, eng, st):
        st.ps = (None, 'none', None, False, None, False, False, False, False, False, False, '', False)

    def rename(self, ps, sub):
        return tuple(sub(x) if isinstance(x, tuple) else x for x in ps)

    def psterms(self, ps):
        return [x for x in ps if isinstance(x, tuple)]

    def v(self, eng, st, inst, what, why):
        self.rep.bad('%s:%s' % (what, inst.fn.name), '%s%s in %s: %s (path %s)' % (self.tag, inst.loc(), inst.fn.name, why, eng.trail_str(st)))

    def two(self, eng, st, inst, okret, failret, ok, fail):
        """fork into a successful and a failing outcome"""
        a, b = st.copy(), st
        out = []
        for s, r, ups in ((a, okret, ok), (b, failret, fail)):
            if callable(r):
                t = eng.fresh(s, inst)
                r(s, t)
                s.env[inst] = t
            else:
                t = r
            s.ps = u(s.ps, **ups) if ups else s.ps
            out.append((s, t))
        return out

    def call(self, eng, st, inst, args):
        n = strip_dot(inst.cname())
        ps = st.ps
        w = engine.width(inst.ty) if inst.ty != 'void' else 0

        def nz(s, t):
            eng.refine(s, ('icmp', 'ne', t, K0, w), True)

        def nonneg(s, t):
            eng.refine(s, ('icmp', 'sge', t, K0, w), True)

        def fail(what):
            return {'failed': g(ps, 'failed') or what}
        if n in SYSCALLS:
            self.events[n] = self.events.get(n, 0) + 1
        if n in ('mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64'):
            return self.two(eng, st, inst, nonneg, ('k', -1),
                            {'name': args[0], 'namelive': True, 'temp': 'created', 'fd': ('i', inst.idx), 'fdopen': True}, fail(n))
        if n == 'fdopen':
            return self.two(eng, st, inst, nz, K0, {'f': ('i', inst.idx), 'fopen': True}, fail(n))
        if n == 'fflush':
            ok = {'flushed': True, 'dirty': False} if args[0] == g(ps, 'f') else {}
            return self.two(eng, st, inst, K0, nz, ok, fail(n))
        if n in ('fsync', 'fdatasync'):
            mine = args[0] == g(ps, 'fd') or args[0] == ('fileno', g(ps, 'f'))
            ok = {'synced': g(ps, 'written') and not g(ps, 'dirty')} if mine else {}
            return self.two(eng, st, inst, K0, nz, ok, fail(n))
        if n == 'fchmod':
            return self.two(eng, st, inst, K0, nz, {}, fail(n))
        if n == 'fileno':
            return [(st, g(ps, 'fd') if args[0] == g(ps, 'f') and g(ps, 'fd') else ('fileno', args[0]))]
        if n == 'fclose':
            if args[0] == g(ps, 'f'):
                if not g(ps, 'fopen'):
                    self.v(eng, st, inst, 'double-close', 'stream closed twice')
                d = {'fopen': False, 'fdopen': False}
                if g(ps, 'failed') or g(ps, 'renamed'):
                    st.ps = u(ps, **d)      # cleanup; result irrelevant
                    return None
                f2 = dict(d)
                f2.update(fail(n))
                return self.two(eng, st, inst, K0, ('k', -1), d, f2)
            return None
        if n == 'close':
            if args[0] == g(ps, 'fd'):
                if not g(ps, 'fdopen'):
                    self.v(eng, st, inst, 'double-close', 'descriptor closed twice')
                st.ps = u(ps, fdopen=False)
            return None
        if n in PUBLISH:
            src, dst = (args[0], args[1]) if n in ('rename', 'link') else (args[1], args[3])
            if src != g(ps, 'name'):
                self.v(eng, st, inst, 'rename-source', '%s moves something other than the temporary file' % n)
            elif not g(ps, 'namelive'):
                self.v(eng, st, inst, 'name-freed', 'temporary name used after it was freed')
            miss = [k for k, c in (('no data written', g(ps, 'written')), ('data written after the last successful flush', not g(ps, 'dirty')),
                                   ('not flushed', g(ps, 'flushed')), ('not synced to disk after the flush', g(ps, 'synced')),
                                   ('after a failed %s' % g(ps, 'failed'), not g(ps, 'failed'))) if not c]
            if miss:
                self.v(eng, st, inst, 'publish-incomplete', 'file published under its final name: ' + ', '.join(miss))
            if dst[0] != 'a':
                self.v(eng, st, inst, 'rename-target', '%s target is not the requested file name' % n)
            else:
                self.target = dst
            return self.two(eng, st, inst, K0, nz, {'renamed': True, 'temp': 'published'}, fail(n))
        if n in ('unlink', 'remove', 'unlinkat'):
            t = args[1] if n == 'unlinkat' else args[0]
            if t == g(ps, 'name') and g(ps, 'temp') == 'created':
                if g(ps, 'namelive'):
                    st.ps = u(ps, temp='unlinked')
                else:
                    self.v(eng, st, inst, 'name-freed', 'temporary file removed through a name that was already freed')
            elif t[0] == 'a':
                self.v(eng, st, inst, 'unlink-target', 'the requested file itself is removed')
            elif g(ps, 'temp') == 'created' or t[0] != 'k':
                self.v(eng, st, inst, 'unlink-other', 'something other than the pending temporary file is removed')
            return None
        if n in ('pointless_free', 'free'):
            if args[0] == g(ps, 'name') and g(ps, 'name') is not None:
                st.ps = u(ps, namelive=False)
            return None
        if n in DATA_WRITERS or n in self.writers:
            k = {'fwrite': 3, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fprintf': 0, 'vfprintf': 0, 'write': 0}.get(n)
            if k is not None and args[k] not in (g(ps, 'f'), g(ps, 'fd')):
                return None
            self.events['writer ' + n] = self.events.get('writer ' + n, 0) + 1
            if n in self.writers:
                eng.havoc(st, args, inst.callee)
                if w == 0:
                    self.v(eng, st, inst, 'write-unchecked', 'writer without a result')
                    return None
                ups = {'written': True, 'dirty': True, 'synced': False, 'flushed': False}
                f2 = dict(ups)
                f2.update(fail('write'))
                return self.two(eng, st, inst, nz, K0, ups, f2)
            # direct stdio write: the result is checked against the count in many ways; only mark dirty
            st.ps = u(ps, written=True, dirty=True, synced=False, flushed=False)
            return None
        return None

    def ret(self, eng, st, inst, val):
        self.rets += 1
        ps = st.ps
        if val is None:
            return
        lo, hi = eng.urange(st, val, 32)
        zero = st.facts.get(val, engine.TOPF)
        success = not (lo <= 0 <= hi) or (0 in zero[4])
        failure = hi == 0
        if not failure:
            # may report success
            if not g(ps, 'renamed'):
                self.v(eng, st, inst, 'success-unpublished', 'success reported although the file was not renamed into place')
            if g(ps, 'failed'):
                self.v(eng, st, inst, 'success-after-failure', 'success reported after a failed %s' % g(ps, 'failed'))
        if not success:
            if g(ps, 'renamed'):
                self.v(eng, st, inst, 'failure-after-publish', 'failure reported after the file was published')
            if g(ps, 'temp') == 'created':
                self.v(eng, st, inst, 'temp-left', 'failure (%s) leaves the temporary file behind' % (g(ps, 'failed') or 'unspecified'))
        if g(ps, 'fopen') or g(ps, 'fdopen'):
            self.v(eng, st, inst, 'handle-left', 'returns with the file handle open')


def run(rep, tier):
    rep.rule = ('path-sensitive typestate over every function that renames a file: each failing system call is followed to the '
                'return; rename only of a fully written, flushed and synced temporary file in the target directory; failure removes '
                'the temporary file, never touches the target and is reported; no other function creates, truncates or renames files')
    rep.assumptions = ['POSIX rename is atomic', 'fclose after a successful fsync loses nothing']
    rep.rule += '; in the serializer and its callers no failing operation (write, alignment, allocation, comparison) ends in a success result'
    for nd in ([True] if tier == 'quick' else [True, False]):
        roots = analyse(rep, nd, '' if nd else '[asserts] ')
        writes(rep, roots, nd, '' if nd else '[asserts] ')
    rep.floor('publishing functions', 1)
    rep.floor('return paths', 4)
    rep.floor('system-call events', 8)


def analyse(rep, nd, tag):
    p0 = Program(ndebug=nd, inline=False)
    cg = p0.callgraph()

    def reach(names):
        out = set()
        ch = True
        while ch:
            ch = False
            for f, cs in cg.items():
                if f not in out and (cs & names or cs & out):
                    out.add(f)
                    ch = True
        return out
    direct = {f.name for f in p0.funcs if any(i.op == 'call' and i.cname() in PUBLISH for i in f.insts())}
    if not direct:
        raise AnalysisBroken('no function renames a file')
    helpers = {f.name for f in p0.funcs if any(i.op == 'call' and i.cname() in SYSCALLS for i in f.insts())}
    writers = reach({'fwrite', 'write', 'fputs', 'fputc', 'pwrite'})
    # inline helpers that issue publication calls (the whole protocol becomes one function)
    inl = set()
    roots = set()
    callers = {}
    for f, cs in cg.items():
        for c in cs:
            callers.setdefault(c, set()).add(f)
    taken = p0.addr_taken
    rec = set()
    for s in sccs(cg):
        if len(s) > 1 or s[0] in cg[s[0]]:
            rec.update(s)
    helpers |= {f for f in writers if not any(True for _ in ()) and f in helpers}
    # climb from the renaming function to where the temporary file is created
    mk = {f.name for f in p0.funcs if any(i.op == 'call' and i.cname() in ('mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64') for i in f.insts())}
    reach_ren = reach(PUBLISH) | direct
    reach_mk = reach({'mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64'}) | mk
    both = reach_ren & reach_mk
    roots = {f for f in both if not (cg[f] & both)} or direct
    import llvmir
    import build
    import shutil
    # everything below the roots that touches the protocol is inlined into them
    below = set()
    work = list(roots)
    while work:
        f = work.pop()
        for c in cg.get(f, ()):
            if c in helpers or c in reach(SYSCALLS - {'fclose', 'close'}):
                if c not in below and c not in rec and c not in roots:
                    below.add(c)
                    work.append(c)
    # small static helpers of the same file (wrappers around the writer) are inlined as well
    for r in roots:
        fl = p0.mod.funcs[r].file
        for c in set(cg[r]):
            f = p0.mod.funcs.get(c)
            if f is not None and not f.decl and f.file == fl and c not in rec and c not in taken and sum(1 for _ in f.insts()) <= 60:
                below.add(c)
    prog = Inl(nd, below)
    w2 = writers - below
    for r in sorted(roots):
        fn = prog.mod.funcs[r]
        cl = Publish(rep, prog, tag, w2)
        eng = Engine(prog.mod, fn, cl, kmax=64).run()
        if eng.truncated:
            raise AnalysisBroken('state budget exceeded in ' + r)
        rep.count('publishing functions')
        rep.count('abstract states', eng.steps)
        rep.count('return paths', cl.rets)
        rep.count('system-call events', sum(cl.events.values()))
        rep.notes.append('%s: %s' % (r, ', '.join('%s x%d' % kv for kv in sorted(cl.events.items()))))
        rep.ok(cl.rets + sum(cl.events.values()))
        tempname(rep, fn, tag)
    others(rep, p0, tag, roots | below)
    return roots


def writes(rep, roots, nd, tag):
    """failures while the content is produced reach the publishing function and its callers"""
    prog = Program(ndebug=nd)
    cg = prog.callgraph()
    up = set(roots)
    ch = True
    while ch:
        ch = False
        for f, cs in cg.items():
            if f not in up and cs & up:
                up.add(f)
                ch = True
    scope, work = set(), list(up)
    while work:
        f = work.pop()
        if f not in scope:
            scope.add(f)
            work.extend(cg.get(f, ()))
    failrun.analyse(rep, prog, 'A03', tag, only=scope, scope=scope)
    rep.floor('fallible operations', 150)


class Inl(Program):
    def __init__(self, nd, names):
        self._names = names
        super().__init__(ndebug=nd, inline=True)

    def _inline_set(self, m, keep, maxinl):
        return self._names


def tempname(rep, fn, tag):
    """the temporary name is <target><suffix without '/'>: same directory, so rename stays atomic"""
    n = 0
    for i in fn.insts():
        if i.op == 'call' and i.cname() in ('mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64'):
            buf = i.ops[0]
            fmts = []
            for j in fn.insts():
                c = strip_dot(j.cname()) if j.op == 'call' else None
                if c in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk') and j.ops[0] is buf:
                    k = {'sprintf': 1, 'snprintf': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}[c]
                    fmts.append((j, cstr(j.ops[k]), j.ops[k + 1] if len(j.ops) > k + 1 else None))
                elif c in ('strcpy', 'memcpy', 'llvm.memcpy.p0.p0.i64', 'strcat', 'stpcpy') and j.ops[0] is buf:
                    a = cstr(j.ops[1])
                    fmts.append((j, ('%s' if a is None else a), j.ops[1] if a is None else None))
            ok = False
            if fmts:
                j, fmt, a0 = fmts[0]
                rest = ''.join((x[1] or '/') for x in fmts)[2:] if fmt and fmt.startswith('%s') else '/'
                ok = fmt is not None and fmt.startswith('%s') and a0 is not None and a0.kind == 'arg' and '/' not in rest and rest.endswith('XXXXXX')
            n += 1
            rep.count('temporary names')
            rep.check(ok, 'tempname:%s' % fn.name,
                      '%s%s in %s: temporary file is not named <target><suffix> in the directory of the target' % (tag, i.loc(), fn.name))
    if n == 0:
        rep.bad('tempname:%s' % fn.name, '%s%s: renames a file it did not create under a unique temporary name' % (tag, fn.name))


def others(rep, prog, tag, allowed):
    for f in prog.funcs:
        for i in f.insts():
            if i.op != 'call':
                continue
            n = strip_dot(i.cname())
            if n in CREATORS:
                rep.count('file-opening calls')
                wr = True
                if n in ('fopen', 'fopen64', 'freopen'):
                    m = cstr(i.ops[1])
                    wr = m is None or any(c in m for c in WRITE_MODES)
                elif n in ('open', 'open64', 'openat'):
                    fl = i.ops[1 if n != 'openat' else 2]
                    wr = fl.kind != 'int' or (fl.n & 3) != 0 or bool(fl.n & (0o100 | 0o1000))
                rep.check(not wr, 'creates:%s' % f.name, '%s%s in %s: %s creates or modifies a file outside the atomic publication' % (tag, i.loc(), f.name, n))
            elif n in PUBLISH or n in ('unlink', 'remove', 'unlinkat', 'mkstemp', 'mkstemp64', 'mkostemp'):
                rep.count('file-changing calls')
                rep.check(f.name in allowed, 'changes:%s' % f.name, '%s%s in %s: %s outside the atomic publication' % (tag, i.loc(), f.name, n))
