"""A14: a failed operation never leads to a null dereference; nothing is used after it was released."""
from common import Program
from rules import ownrun


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('path-sensitive nullness and lifetime typestate over every function, each fallible operation forked into success and failure: a pointer known to be null on the path is '
                'never dereferenced nor handed to a function that dereferences it, and memory or references released on the path are never read, written, passed on or released again')
    for nd in ([True] if tier == 'quick' else [True, False]):
        ownrun.analyse(rep, Program(ndebug=nd), 'A14', '' if nd else '[asserts] ')
    rep.floor('functions', 300)
    rep.floor('fallible operations', 400)
    rep.floor('memory accesses', 3000)
    rep.floor('parameters a callee dereferences', 100)
    rep.assumptions = ['pointers read from memory the function did not write are valid unless tested', 'CPython API functions return NULL exactly when they fail']
