"""A15: everything acquired is released exactly once."""
from common import Program
from rules import ownrun


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('path-sensitive ownership typestate (balance of references, allocations, files, mappings and Judy arrays) over every function with per-outcome summaries of what callees consume, '
                'keep, release and return: at every return the balance is zero except for what is returned or stored where a destructor releases it; every destructor releases every field '
                'an owned value is stored in, on every path; a field is not overwritten while it owns something; an object keeps a borrowed reference only after taking its own')
    for nd in ([True] if tier == 'quick' else [True, False]):
        ownrun.analyse(rep, Program(ndebug=nd), 'A15', '' if nd else '[asserts] ')
    rep.floor('functions', 300)
    rep.floor('fallible operations', 400)
    rep.floor('releases of references, memory, files, mappings', 60)
    rep.floor('fields some function releases', 15)
    rep.floor('destructor fields', 15)
    rep.assumptions = ['reference ownership of CPython API functions is as documented', 'None, True, False and static type objects are immortal',
                       'elements owned by a dynamic array are not followed individually']
