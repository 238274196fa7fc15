"""Shared driver of A03 and A13: run the failure analysis and turn its return paths into obligations."""
from common import AnalysisBroken
from failures import Analysis

A03 = {'SWALLOW': 'returns success although %s failed', 'NOMSG': 'fails after %s without storing an error message',
       'FAILNOMSG': 'returns failure without storing an error message', 'VOIDSWALLOW': 'loses the failure of %s'}
A13 = {'NOEXC': 'fails after %s without a Python exception set', 'NULLNOEXC': 'returns the error value without a Python exception set',
       'EXCLEFT': 'returns normally with a Python exception set', 'SWALLOW': 'returns a normal result although %s failed'}


class Run(Analysis):
    def __init__(self, prog, rep, which, tag):
        Analysis.__init__(self, prog)
        self.rep, self.which, self.tag = rep, which, tag
        self.texts = A03 if which == 'A03' else A13

    def add(self, kind, cl, eng, st, inst, failed):
        t = self.texts[kind]
        if '%s' in t:
            t %= failed
        self.rep.bad('%s:%s:%s' % (kind, cl.f.name, failed), '%s%s in %s: %s; path %s' % (self.tag, inst.loc(), cl.f.name, t, eng.trail_str(st)))

    def on_return(self, cl, eng, st, inst, val, failed, exc, err, latch, can_ok, can_fail):
        k = cl.s.kind
        f = cl.f
        py = f.file.startswith('python/') or f.file == 'pointless_ext.c'
        hit = []
        if failed:
            if k in ('bool', 'ptr', 'neg1') and can_ok and (self.scope is not None or (self.which == 'A03') != bool(py and cl.role)):
                hit.append('SWALLOW')
            if self.which == 'A03':
                if cl.s.chans and not err:
                    hit.append('NOMSG')
                # (a non-zero constant marks the failure: it is never mistaken for "equal", "none" or "empty")
                mark = k == 'value' and val is not None and (eng.const_of(st, val) or 0) != 0
                if k in ('void', 'value') and not cl.s.chans and not latch and not py and not mark:
                    hit.append('VOIDSWALLOW')
            elif py and cl.role and exc != 1 and k != 'void':
                hit.append('NOEXC')
        else:
            if k in ('bool', 'ptr', 'neg1') and not can_ok:
                if self.which == 'A03' and cl.s.chans and not err:
                    hit.append('FAILNOMSG')
                if self.which == 'A13' and cl.role and exc != 1 and not cl.isiter:
                    hit.append('NULLNOEXC')
            if exc == 1 and self.which == 'A13':
                hit.append('EXCLEFT')
        if self.scope is not None:
            hit = [h for h in hit if h.endswith('SWALLOW')] if f.name in self.scope else []
        for h in hit:
            self.add(h, cl, eng, st, inst, failed)
        if not hit:
            self.rep.ok()
        if cl.s.chans:
            self.withmsg.add(f.name)
        if cl.role:
            self.roles_seen.add(f.name)
            self.rep.count('exception checked returns')

    def go(self):
        self.withmsg, self.roles_seen = set(), set()
        self.run()
        if self.stats['truncated']:
            raise AnalysisBroken('exploration of a function did not finish')
        for k, v in self.stats.items():
            self.rep.count(k, v)
        self.rep.count('functions with an error message parameter', len(self.withmsg))
        self.rep.count('functions called by the interpreter', len(self.roles_seen))


def analyse(rep, prog, which, tag, only=None, scope=None):
    r = Run(prog, rep, which, tag)
    r.only, r.scope = only, scope
    r.go()
