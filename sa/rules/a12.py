"""A12: a Python object is accessed as a concrete type only where its type was established."""
from common import AnalysisBroken, Program
import pytypes


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('every access to the inside of a Python object (fields of an extension object, unchecked item/size/data macros of list, tuple, unicode, '
                'bytes, bytearray, float, int, set, dict, slice) is reached only by objects whose type was established: tested on the path, '
                'constructed, parsed with a typed format unit or guaranteed by the slot that is called; requirements not met locally are '
                'propagated backwards through parameters, fields, results and comparison-function selection over the whole program')
    rep.assumptions = ['methods and slots are only called by the interpreter, with self of the type they are registered for (PyMethodDef flags as registered)',
                       'a comparison function chosen for a value is applied while the discriminating field of that value is unchanged']
    prog = Program(inline=False)
    an = pytypes.PyTypes(prog).run()
    c = an.counts
    for k, v in c.items():
        rep.count(k, v)
    rep.count('extension types', len(an.types))
    rep.count('requirements on parameters, fields, results and locals', sum(len(d) for d in an.access.values()))
    rep.ok(c['accesses'])
    for k, m in sorted(an.viol.items()):
        rep.bad(k, m)
    if c.get('truncated'):
        raise AnalysisBroken('exploration of a function did not finish')
    rep.floor('accesses', 600)
    rep.floor('type tests', 300)
    rep.floor('extension types', 12)
    rep.floor('functions', 200)
