"""Shared program model, result reporting and known-findings handling."""
import json
import os
import re
import shutil
import sys
import time

import build
import fptr
import llvmir
from build import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# CPython type-object slots by position in struct _typeobject (resolved by name through debug info)
SLOT_STRUCTS = {'tp_as_sequence': '%struct.PySequenceMethods', 'tp_as_mapping': '%struct.PyMappingMethods',
                'tp_as_number': '%struct.PyNumberMethods', 'tp_as_buffer': None}


class Program:
    """The linked program: LLVM module, call graph (indirect calls resolved by signature among
    address-taken functions), Python type tables."""

    def __init__(self, ndebug=True, inline=True, keep=(), passes='function(sroa)', maxinl=400):
        self.ndebug = ndebug
        bc, self.sources, tmp = build.build(ndebug=ndebug)
        try:
            if inline:
                m0 = llvmir.load(bc, None)
                names = self._inline_set(m0, set(keep), maxinl)
                self.inlined = names
                self.mod = llvmir.load(bc, 'always-inline,' + passes, inline=lambda n, loc: n in names)
                self.orig = m0
            else:
                self.inlined = set()
                self.mod = llvmir.load(bc, passes)
                self.orig = None
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.funcs = [f for f in self.mod.defined() if self.is_project(f)]
        if len(self.funcs) < 100:
            raise AnalysisBroken('only %d project functions found' % len(self.funcs))
        self._callers = None
        self._targets = {}
        self._fp = None
        self._addr_taken = None

    @staticmethod
    def is_project(f):
        return f.file.startswith(('src/', 'python/', 'include/', 'pointless_ext')) or f.file == 'pointless_ext.c'

    def _inline_set(self, m, keep, maxinl):
        size = {}
        calls = {}
        taken = address_taken(m)
        for f in m.defined():
            size[f.name] = sum(1 for _ in f.insts())
            calls[f.name] = {i.callee.name for i in f.insts() if i.op == 'call' and i.callee.kind == 'func' and not i.callee.decl}
        rec = set()
        for scc in sccs(calls):
            if len(scc) > 1 or scc[0] in calls.get(scc[0], ()):
                rec.update(scc)
        out = set()
        for f in m.defined():
            if not f.file.startswith(('src/', 'python/', 'pointless_ext')):
                continue
            if f.linkage not in (8, 9) or f.name in taken or f.name in rec or f.name in keep:
                continue
            if size[f.name] <= maxinl:
                out.add(f.name)
        return out

    # ---- queries
    def callsites(self, name):
        if self._callers is None:
            self._callers = {}
            for f in self.mod.defined():
                for i in f.insts():
                    if i.op == 'call' and i.callee.kind == 'func':
                        self._callers.setdefault(i.callee.name, []).append(i)
        return self._callers.get(name, [])

    @property
    def addr_taken(self):
        if self._addr_taken is None:
            self._addr_taken = address_taken(self.mod)
        return self._addr_taken

    def targets(self, inst):
        """possible callees (Func) of a call instruction"""
        return self.resolve(inst.callee, inst.ty, tuple(o.ty for o in inst.ops))

    def resolve(self, c, retty, argtys):
        """possible functions a value may denote when called with the given type"""
        if c.kind == 'func':
            return [c]
        if c.kind in ('int', 'undef', 'zero'):
            return []       # null callee: the guard before it is never true
        if self._fp is None:
            self._fp = fptr.FuncPtrs(self.mod)
        s = self._fp.v.get(c)
        if s:
            # (the linker merges structures of equal layout: a callee must also have the called type)
            s = [f for f in s if f.retty == retty and (f.vararg or len(f.args) == len(argtys) and
                                                      all(a.ty == o for a, o in zip(f.args, argtys)))]
            if s:
                return sorted(s, key=lambda f: f.name)
        sig = (retty, argtys)
        r = self._targets.get(sig)
        if r is None:
            r = []
            for n in sorted(self.addr_taken):
                f = self.mod.funcs[n]
                if f.retty == retty and len(f.args) == len(argtys) and all(a.ty == o for a, o in zip(f.args, argtys)):
                    r.append(f)
            self._targets[sig] = r
        return r

    def callgraph(self):
        g = {}
        for f in self.mod.defined():
            s = set()
            for i in f.insts():
                if i.op == 'call':
                    s.update(t.name for t in self.targets(i))
            g[f.name] = s
        return g

    def struct_field(self, sty, idx):
        return llvmir.field_name(self.mod, sty, idx)

    def field_index(self, sty, name):
        for k in range(len(self.mod.structs.get(sty) or [])):
            if self.struct_field(sty, k) == name:
                return k
        return None

    # ---- Python type tables
    def py_types(self):
        """[(type global name, tp_name, {slot: Func}, [(method name, Func)], {getset: (get,set)})]"""
        out = []
        for g in self.mod.globals.values():
            if g.valty == '%struct._typeobject' and g.init is not None and g.init.kind == 'agg':
                slots, methods = {}, []
                name = None
                flds = self._fields(g.init, '%struct._typeobject')
                if 'tp_name' in flds:
                    name = cstr(flds['tp_name'])
                for k, v in flds.items():
                    if v.kind == 'func':
                        slots[k] = v
                    elif k in ('tp_as_sequence', 'tp_as_mapping', 'tp_as_number', 'tp_as_buffer') and v.kind == 'global' and v.init is not None:
                        sub = self._fields(v.init, v.valty if v.valty.startswith('%') else None)
                        for kk, vv in sub.items():
                            if vv.kind == 'func':
                                slots[kk] = vv
                    elif k == 'tp_methods' and v.kind == 'global' and v.init is not None and v.init.elems:
                        for e in v.init.elems:
                            if e.kind == 'agg' and e.elems[1].kind == 'func':
                                methods.append((cstr(e.elems[0]), e.elems[1]))
                    elif k == 'tp_getset' and v.kind == 'global' and v.init is not None and v.init.elems:
                        for e in v.init.elems:
                            if e.kind == 'agg':
                                for q, nm in ((1, 'get'), (2, 'set')):
                                    if e.elems[q].kind == 'func':
                                        slots['getset_%s_%s' % (nm, cstr(e.elems[0]))] = e.elems[q]
                out.append((g.name, name, slots, methods, flds))
        return out

    def _fields(self, init, sty):
        d = {}
        if init.kind != 'agg' or not sty:
            return d
        for k, e in enumerate(init.elems):
            n = self.struct_field(sty, k)
            if n.isdigit() and sty.startswith('%struct.anon'):
                n = {0: 'bf_getbuffer', 1: 'bf_releasebuffer'}.get(k, n)
            d[n] = e
        return d

    def module_methods(self):
        out = []
        for g in self.mod.globals.values():
            if 'PyMethodDef' in g.valty and g.init is not None and g.init.elems:
                for e in g.init.elems:
                    if e.kind == 'agg' and e.elems[1].kind == 'func':
                        out.append((g.name, cstr(e.elems[0]), e.elems[1]))
        return out

    def entry_points(self):
        """functions CPython calls directly: {Func: [roles]}"""
        out = {}
        for g, tn, slots, methods, _ in self.py_types():
            for s, f in slots.items():
                out.setdefault(f, []).append('%s.%s' % (g, s))
        for g, mn, f in self.module_methods():
            out.setdefault(f, []).append('%s:%s' % (g, mn))
        return out


def cstr(v):
    if v.kind == 'cexpr':
        v = v.ops[0]
    if v.kind == 'global' and v.init is not None and v.init.text is not None:
        return v.init.text.rstrip(b'\0').decode('utf8', 'replace')
    return None


def address_taken(m):
    out = set()

    def const(v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if v.kind == 'func':
            out.add(v.name)
        for e in (getattr(v, 'elems', None) or []):
            const(e, seen)
        if v.kind == 'cexpr':
            for e in v.ops or []:
                const(e, seen)
    seen = set()
    for g in m.globals.values():
        if g.init is not None:
            const(g.init, seen)
    for f in m.defined():
        for i in f.insts():
            for o in i.ops:
                if o.kind == 'func':
                    out.add(o.name)
                elif o.kind in ('cexpr', 'agg'):
                    const(o, seen)
    return out


def sccs(g):
    """Tarjan, iterative; components in reverse topological order (callees first)"""
    index, low, on, stack, out = {}, {}, set(), [], []
    n = [0]
    for root in g:
        if root in index:
            continue
        work = [(root, iter(sorted(g.get(root, ()))))]
        index[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ())))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def strip_dot(n):
    """Py_DECREF.12 -> Py_DECREF (llvm-link renames internal copies)"""
    if n is None or n.startswith('llvm.'):
        return n
    return re.sub(r'\.\d+$', '', n)


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []         # (key, message)
        self.oblig = 0
        self.disch = 0
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.level = 'other'
        self.rule = ''
        self.floors = []

    def ok(self, n=1):
        self.oblig += n
        self.disch += n

    def bad(self, key, msg):
        """key: stable construct id (no line numbers); msg: file:line function path"""
        self.oblig += 1
        if any(k == key for k, _ in self.viol):
            return
        self.viol.append((key, msg))

    def check(self, cond, key, msg):
        if cond:
            self.ok()
        else:
            self.bad(key, msg)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """an analysed count that fell below `least` means the anchors vanished: no verdict"""
        have = self.counts.get(name, 0)
        self.floors.append((name, least, have))
        if have < least:
            raise AnalysisBroken('%s: %s = %d, expected at least %d' % (self.prop, name, have, least))


def known_findings():
    """{(property, key): text} of the unrepaired findings"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(rep, seed):
    known = known_findings()
    outdir = os.environ.get('SA_OUT', os.path.join(VERIF, 'evidence'))
    os.makedirs(outdir, exist_ok=True)
    new = [(k, m) for k, m in rep.viol if (rep.prop, k) not in known]
    old = [(k, m) for k, m in rep.viol if (rep.prop, k) in known]
    print('%s: %s' % (rep.prop, rep.rule))
    for k in sorted(rep.counts):
        print('  analysed %s: %d' % (k, rep.counts[k]))
    print('  obligations %d, discharged %d, known findings %d, violations %d' % (rep.oblig, rep.disch, len(old), len(new)))
    for n in rep.notes:
        print('  note: ' + n)
    for k, m in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (rep.prop, known[(rep.prop, k)], m))
    ev = {
        'property': rep.prop, 'tier': rep.tier, 'seed': seed, 'level': rep.level,
        'coverage': {'explanation': rep.rule, 'obligations': rep.oblig, 'discharged': rep.disch,
                     'analysed': dict(sorted(rep.counts.items())),
                     'known_findings': [k for k, _ in old], 'notes': rep.notes},
        'wall_s': round(time.time() - rep.t0, 3),
        'assumptions': rep.assumptions,
        'violations': len(new),
    }
    with open(os.path.join(outdir, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    rp = os.path.join(outdir, rep.prop + '.violations.txt')
    if new:
        with open(rp, 'w') as f:
            for k, m in new:
                f.write('%s\n    %s\n' % (k, m))
        for k, m in new:
            print('  violated: %s: %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0
