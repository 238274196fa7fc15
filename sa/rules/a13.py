"""A13: a function called by the interpreter returns its error value exactly when an exception is set."""
from common import Program
from rules import failrun


def run(rep, tier):
    rep.rule = ('exception-state typestate over every function reachable from the interpreter: on every path to a return of a slot, method, getter or module function, '
                'the error value (NULL / -1) is returned if and only if a Python exception is set; no operation that failed or raised is followed by a normal result')
    for nd in ([True] if tier == 'quick' else [True, False]):
        failrun.analyse(rep, Program(ndebug=nd), 'A13', '' if nd else '[asserts] ')
        if not nd:
            break
    rep.floor('functions', 300)
    rep.floor('functions called by the interpreter', 90)
    rep.floor('exception checked returns', 300)
    rep.assumptions = ['CPython API functions set an exception exactly when they return their documented error value',
                       'PyFloat_AsDouble on an object that passed PyFloat_Check does not fail']
