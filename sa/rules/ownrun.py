"""Shared driver of A14 (NULL, USE) and A15 (LEAK, LEAKARG, OVER, BORROW)."""
from common import AnalysisBroken
from own import OwnAnalysis, DEC, INC, REL, JUDY_FREE
from common import strip_dot

MINE = {'A14': {'NULL', 'USE'}, 'A15': {'LEAK', 'LEAKARG', 'OVER', 'BORROW'}}


def analyse(rep, prog, which, tag):
    an = OwnAnalysis(prog)
    an.run()
    if which == 'A15':
        an.destructors()
    if an.stats['truncated']:
        raise AnalysisBroken('exploration of a function did not finish')
    for k, v in an.stats.items():
        rep.count(k, v)
    acc = rel = cells = 0
    for f in prog.funcs:
        for i in f.insts():
            if i.op in ('load', 'store'):
                acc += 1
            elif i.op == 'call':
                n = strip_dot(i.cname())
                if n in DEC or n in REL or n in JUDY_FREE:
                    rel += 1
    rep.count('releases of references, memory, files, mappings', rel)
    rep.count('memory accesses', acc)
    rep.count('parameters a callee dereferences', sum(len(v) for v in an.derefs.values()))
    rep.count('fields some function releases', len(an.relfields))
    for f in prog.funcs:
        bad = {k: m for k, m in an.viol.get(f.name, {}).items() if k[0] in MINE[which]}
        for (kind, what), m in bad.items():
            rep.bad('%s:%s:%s' % (kind, f.name, what.replace(' ', '-')), tag + m)
        if not bad:
            rep.ok(max(1, an.rets.get(f.name, 1)))
    return an
