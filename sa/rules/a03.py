"""A03: no failure of an operation is reported as success, and failures come with a message."""
from common import Program, AnalysisBroken
from rules import failrun


def run(rep, tier):
    rep.rule = ('property simulation of failure: every fallible operation (allocation, system call, CPython call, function that reports an error) is forked into '
                'its success and failure outcome and the failing outcome is followed to every return of every function, callees first; a failing path must '
                'return the failing value and, where the function has an error out-parameter, must have stored a message in it')
    for nd in ([True] if tier == 'quick' else [True, False]):
        failrun.analyse(rep, Program(ndebug=nd), 'A03', '' if nd else '[asserts] ')
    rep.floor('functions', 300)
    rep.floor('fallible operations', 300)
    rep.floor('fallible functions', 120)
    rep.floor('functions with an error message parameter', 60)
    rep.assumptions = ['fclose/munmap results after the data has been synced are not failures',
                       'printing to stdout/stderr is best effort',
                       'an undetermined integer index is not taken for the sentinel -1']
