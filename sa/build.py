"""Compile /repo's current C sources to one linked LLVM module.

The extension's own source list is read from setup.py; every other src/*.c file the C test
program links is added, so nothing the build ships is left out.  Each translation unit is
parsed by clang with the build's own include paths and defines (-O0 so that the IR mirrors
the source; -DNDEBUG as in setup.py, or without it for the assert-enabled C build).
"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
import zlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'


class AnalysisBroken(Exception):
    """An anchor vanished / nothing to analyse: the check gives no verdict (error exit)."""


def source_list(repo=REPO):
    out = []
    tree = ast.parse(open(os.path.join(repo, 'setup.py')).read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith('.c'):
            out.append(n.value)
    srcd = os.path.join(repo, 'src')
    for f in sorted(os.listdir(srcd)):
        if f.endswith('.c') and 'src/' + f not in out:
            out.append('src/' + f)
    out = [s for s in out if os.path.exists(os.path.join(repo, s))]
    if len(out) < 20:
        raise AnalysisBroken('source list from setup.py has only %d C files' % len(out))
    return out


def py_include():
    import glob
    for c in sorted(glob.glob('/usr/include/python3.*'), reverse=True):
        if os.path.exists(os.path.join(c, 'Python.h')):
            return c
    raise AnalysisBroken('Python.h not found')


def build(ndebug=True, repo=REPO, keep=None):
    """Returns (path of linked bitcode, list of sources, temp dir)."""
    tmp = keep or tempfile.mkdtemp(prefix='sa_ir_')
    srcs = source_list(repo)
    if not ndebug:
        # the extension is only ever built with NDEBUG; the C build links src/ with assertions on
        srcs = [s for s in srcs if s.startswith('src/')]
    flags = ['-S', '-emit-llvm', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
             '-fno-discard-value-names', '-std=c99', '-D_GNU_SOURCE', '-w',
             '-I./include', '-I./judy-1.0.5/src', '-I' + py_include()]
    if ndebug:
        flags.append('-DNDEBUG')

    def one(s):
        o = os.path.join(tmp, s.replace('/', '__') + '.ll')
        r = subprocess.run([LLVM + 'clang'] + flags + [s, '-o', o], cwd=repo,
                           capture_output=True, text=True)
        if r.returncode == 0:
            mark(o)
        return s, o, r
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for s, o, r in ex.map(one, srcs):
            if r.returncode != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise AnalysisBroken('clang failed on %s:\n%s' % (s, r.stderr[-2000:]))
            objs.append(o)
    allbc = os.path.join(tmp, 'all.bc')
    r = subprocess.run([LLVM + 'llvm-link'] + objs + ['-o', allbc], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('llvm-link failed: ' + r.stderr[-2000:])
    return allbc, srcs, tmp


def mark(path):
    """The linker merges structures of equal layout; a zero-sized last element keeps the object types apart."""
    text = open(path, encoding='latin-1').read()

    def sub(m):
        return '%s, [0 x [%d x i8]] }' % (m.group(1), zlib.crc32(m.group(2).encode()) % 1000003 + 7)
    new = re.sub(r'^((%struct\.PyPointless(?!_CAPI)\w*) = type \{ [^\n]*?) \}$', sub, text, flags=re.M)
    if new != text:
        open(path, 'w', encoding='latin-1').write(new)


def macros(repo=REPO):
    """Object-like integer macros of the project's headers, evaluated by clang."""
    hdr = os.path.join(repo, 'include/pointless')
    names = set()
    inc = ''.join('#include <pointless/%s>\n' % f for f in ('pointless.h',))
    text = '#include "pointless_ext.h"\n' + inc
    r = subprocess.run([LLVM + 'clang', '-E', '-dM', '-D_GNU_SOURCE', '-std=c99', '-I./include', '-I.',
                        '-I./judy-1.0.5/src', '-I' + py_include(), '-x', 'c', '-'],
                       input=text, cwd=repo, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('macro dump failed: ' + r.stderr[-1000:])
    out = {}
    for line in r.stdout.splitlines():
        p = line.split(None, 2)
        if len(p) == 3 and '(' not in p[1] and (p[1].startswith('POINTLESS_')):
            v = p[2].strip()
            while v.startswith('(') and v.endswith(')'):
                v = v[1:-1].strip()
            try:
                out[p[1]] = int(v.rstrip('uUlL'), 0)
            except ValueError:
                names.add(p[1])
    return out


if __name__ == '__main__':
    print(build(keep=sys.argv[1] if len(sys.argv) > 1 else None))
    print(macros())
