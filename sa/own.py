"""Ownership: who must release what, on every path.

Runs on top of the failure analysis (failures.py): every fallible operation is forked into success and
failure, and each state also carries the balance of the resources the function has touched:
  ('v', value)      count of references / allocations the function itself owns (negative: it gave away or
                    released something it never owned)
  ('d', value)      released: must not be used any more
  ('c', address)    a field of a local object owns something (an array grown by a callee, say)
  ('q', k, off)     the function left something owned in the memory its parameter k points at
  ('r', k, off)     it released what that memory owned
Summaries (callees first, separately for the successful and the failing outcome) say what a function
returns, consumes, leaves in or releases from its arguments.  Nothing is matched by name except the C
library and CPython primitives listed below.
"""
import engine
from engine import K0, Engine
from common import strip_dot
from failures import Analysis, FailClient, Summary, ALLOC
from modref import innermost

NEWREF = {'PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSize_t', 'PyLong_FromSsize_t', 'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong',
          'PyFloat_FromDouble', 'PyBool_FromLong', 'Py_BuildValue', 'PyUnicode_FromFormat', 'PyUnicode_FromKindAndData', 'PyUnicode_FromString',
          'PyUnicode_FromStringAndSize', 'PyUnicode_AsLatin1String', 'PyUnicode_AsUTF8String', 'PyUnicode_AsEncodedString', 'PyObject_GetIter',
          'PyObject_Repr', 'PyObject_Str', 'PyObject_RichCompare', 'PyIter_Next', 'PyByteArray_FromStringAndSize', 'PyBytes_FromStringAndSize',
          'PyCapsule_New', 'PyModule_Create2', '_PyObject_New', 'PyType_GenericAlloc', 'PyType_GenericNew', 'PyTuple_New', 'PyList_New', 'PyDict_New', 'PySet_New',
          'PyTuple_Pack', 'PyObject_Call', 'PyObject_CallObject', 'PyObject_CallFunction', 'PyObject_CallMethod', 'PyObject_GetAttr',
          'PyObject_GetAttrString', 'PySequence_GetItem', 'PySequence_Fast', 'PySequence_List', 'PySequence_Tuple', 'PyNumber_Index',
          'PyNumber_Long', 'PyNumber_Float', 'PyNumber_Add', 'PyObject_GetItem', 'Py_NewRef', '_Py_NewRef', 'PyList_AsTuple', 'PyImport_ImportModule'}
INC = {'Py_INCREF', 'Py_XINCREF', 'Py_IncRef'}
DEC = {'Py_DECREF', 'Py_XDECREF', 'Py_DecRef', '_Py_Dealloc'}
STEAL = {'PyModule_AddObject': 2, 'PyTuple_SetItem': 2, 'PyList_SetItem': 2, 'PyTuple_SET_ITEM': 2, 'PyList_SET_ITEM': 2}
# resource constructors / destructors: kind, argument released
ACQ = {'fopen': 'file', 'fdopen': 'file', 'mkstemp': 'fd', 'mmap': 'map'}
REL = {'free': ('mem', 0), 'fclose': ('file', 0), 'close': ('fd', 0), 'munmap': ('map', 0), 'PyObject_Free': ('ref', 0), 'PyMem_Free': ('mem', 0)}
JUDY_INS = {'JudyLIns', 'JudyHSIns', 'JudySLIns'}
JUDY_FREE = {'JudyLFreeArray', 'JudyHSFreeArray', 'JudySLFreeArray'}
NULLOK = {'Py_XDECREF', 'Py_XINCREF', 'Py_BuildValue', 'PyErr_SetObject', 'PyErr_Format', 'PyErr_SetString', 'PyByteArray_FromStringAndSize', 'PyBytes_FromStringAndSize',
          'PyUnicode_FromStringAndSize', 'PyObject_Free', 'PyMem_Free', 'PyErr_Restore', 'PyErr_SetFromErrno', 'PyObject_Repr', 'PyObject_Str',
          'PyModule_AddObject', 'PyErr_ExceptionMatches', 'PyEval_RestoreThread'}
LIBC_NONNULL = {'strlen': (0,), 'strcmp': (0, 1), 'strcpy': (0, 1), 'strdup': (0,), 'fclose': (0,), 'fwrite': (0, 3), 'fflush': (0,),
                'fileno': (0,), 'ftell': (0,), 'fprintf': (0,), 'rename': (0, 1), 'unlink': (0,), 'mkstemp': (0,), 'fopen': (0, 1), 'memcmp': (0, 1), 'memchr': (0,), 'strnlen': (0,), 'fread': (0, 3), 'qsort': (0,)}
LIMIT = 40


class OwnSum(Summary):
    __slots__ = ('own',)

    def __init__(self):
        Summary.__init__(self)
        self.own = None

    def sig(self):
        o = self.own
        return (Summary.sig(self), None if o is None else repr(sorted(o.items(), key=repr)))

    def again(self):
        s = OwnSum()
        s.kind, s.chans, s.fail = self.kind, self.chans, self.fail
        return s


class OwnAnalysis(Analysis):
    def __init__(self, prog):
        Analysis.__init__(self, prog)
        self.osum = {}
        self.relfields, self.relparam, self.derefs, self.refreleased = {}, set(), {}, set()
        self.viol, self.rets = {}, {}
        self.fieldstores = {}
        self.find_releasers()
        self.find_derefs()
        self.nonnull = self.find_nonnull()
        self.written = self.find_written()
        self.oblig = {}
        self.nullable = {}
        for f, roles in self.roles.items():
            for r in roles:
                slot = r.rsplit('.', 1)[-1]
                if slot in ('tp_init', 'tp_new', 'tp_call', 'mp_ass_subscript', 'sq_ass_item', 'sq_ass_slice', 'tp_setattro', 'tp_descr_set'):
                    self.nullable.setdefault(f.name, set()).add(2)
        for g in prog.mod.globals.values():
            if 'PyMethodDef' in g.valty and g.init is not None and g.init.elems:
                for e in g.init.elems:
                    if e.kind == 'agg' and e.elems[1].kind == 'func' and e.elems[2].kind == 'int' and e.elems[2].n & 2:
                        self.nullable.setdefault(e.elems[1].name, set()).add(2)

    # ---- structural pre-passes
    def field_of(self, a):
        """(struct, index) of an address operand"""
        if a.kind == 'inst' and a.op == 'gep':
            return innermost(self.prog.mod, a.srcty, [o.n if o.kind == 'int' else None for o in a.ops[2:]])
        return None

    def find_releasers(self):
        """fields whose content some function releases; parameters a function releases"""
        changed = True
        while changed:
            changed = False
            for f in self.prog.mod.defined():
                for i in f.insts():
                    if i.op != 'call':
                        continue
                    ks = []
                    for t in self.prog.targets(i):
                        n = strip_dot(t.name)
                        if n in DEC:
                            ks.append(0)
                            o = i.ops[0]
                            if o.kind == 'inst' and o.op == 'load' and self.field_of(o.ops[0]):
                                self.refreleased.add(self.field_of(o.ops[0]))
                        elif n in REL:
                            ks.append(REL[n][1])
                        elif n == 'realloc':
                            ks.append(0)
                        else:
                            ks += [k for (g, k) in self.relparam if g == t.name]
                    for k in ks:
                        if k >= len(i.ops):
                            continue
                        o = i.ops[k]
                        if o.kind == 'arg':
                            if (f.name, o.idx) not in self.relparam:
                                self.relparam.add((f.name, o.idx))
                                changed = True
                        elif o.kind == 'inst' and o.op == 'load':
                            r = self.field_of(o.ops[0])
                            if r:
                                self.relfields.setdefault(r, set()).add(f.name)

    def find_derefs(self):
        """parameters dereferenced on every path through a function"""
        doms = {}
        changed = True
        while changed:
            changed = False
            for f in self.prog.funcs:
                rets = [r.bb for r in f.rets()]
                for i in f.insts():
                    ps = []
                    if i.op in ('load', 'store'):
                        ps.append(i.ops[0 if i.op == 'load' else 1])
                    elif i.op == 'call' and i.callee.kind == 'func' and not i.callee.decl:
                        ps += [i.ops[k] for k in self.derefs.get(i.callee.name, ()) if k < len(i.ops)]
                    elif i.op == 'call' and i.cname() and i.cname().startswith('llvm.memcpy') and i.ops[2].kind == 'int' and i.ops[2].n > 0:
                        ps += i.ops[:2]
                    for p in ps:
                        while p.kind == 'inst' and p.op in ('gep', 'bitcast'):
                            p = p.ops[0]
                        if p.kind != 'arg' or p.idx in self.derefs.get(f.name, ()):
                            continue
                        if all(engine.dominates(f, i.bb, b) for b in rets):
                            self.derefs.setdefault(f.name, set()).add(p.idx)
                            changed = True

    READERS = {'memcmp', 'strlen', 'strcmp', 'JudyHSGet', 'JudyLGet', 'Judy1Test', 'fwrite', 'printf'}

    def find_written(self):
        """pointer parameters a function may write through or keep (least fixpoint)"""
        written = set()

        def derived(f):
            root = {}
            chg = True
            while chg:
                chg = False
                for i in f.insts():
                    if i.op in ('gep', 'bitcast', 'phi', 'select') and i.idx not in root:
                        for v in ([x for x, _ in i.incoming] if i.op == 'phi' else i.ops):
                            k = v.idx if v.kind == 'arg' else root.get(v.idx) if v.kind == 'inst' else None
                            if k is not None and v.ty == 'ptr':
                                root[i.idx] = k
                                chg = True
                                break
            return root
        uses = []
        for f in self.prog.funcs:
            root = derived(f)

            def rt(v):
                return v.idx if v.kind == 'arg' else root.get(v.idx) if v.kind == 'inst' else None
            for i in f.insts():
                if i.op in ('load', 'icmp', 'gep', 'bitcast', 'phi', 'select', 'br', 'switch'):
                    continue
                n = strip_dot(i.cname()) if i.op == 'call' else None
                ts = self.prog.targets(i) if i.op == 'call' else ()
                for k, v in enumerate(i.ops):
                    a = rt(v)
                    if a is None or v.ty != 'ptr':
                        continue
                    if n and (n in self.READERS or n.startswith('llvm.dbg') or n.startswith('llvm.mem') and k == 1):
                        continue
                    if ts and all(self.prog.is_project(t) for t in ts):
                        uses += [(f.name, a, t.name, k) for t in ts]
                    else:
                        written.add((f.name, a))
        chg = True
        while chg:
            chg = False
            for fn, a, tn, k in uses:
                if (tn, k) in written and (fn, a) not in written:
                    written.add((fn, a))
                    chg = True
        return written

    def find_nonnull(self):
        """pointer parameters no call site in the program passes null to (greatest fixpoint)"""
        sites = {}
        for f in self.prog.mod.defined():
            for i in f.insts():
                if i.op == 'call':
                    for t in self.prog.targets(i):
                        sites.setdefault(t.name, []).append(i)
        ok = {(f.name, a.idx) for f in self.prog.funcs for a in f.args
              if a.ty == 'ptr' and (sites.get(f.name) or not self.prog.ndebug) and not self.roles.get(f)}
        # (the C library on its own: its callers are taken to pass valid pointers)

        def safe(f, v):
            while v.kind in ('inst', 'cexpr') and v.op in ('gep', 'bitcast'):
                v = v.ops[0]
            return v.kind in ('func', 'global') or v.kind == 'inst' and v.op == 'alloca' or v.kind == 'arg' and (f.name, v.idx) in ok
        changed = True
        while changed:
            changed = False
            for n, k in sorted(ok):
                for i in sites.get(n, ()):
                    if k >= len(i.ops) or not safe(i.fn, i.ops[k]):
                        ok.discard((n, k))
                        changed = True
                        break
        return ok

    def self_struct(self, tglobal):
        """the struct behind a Python type: the one its slots and methods index their first argument with"""
        n = {}
        for g, tn, slots, methods, _ in self.prog.py_types():
            if g != tglobal:
                continue
            for f in list(slots.values()) + [m for _, m in methods]:
                for i in f.insts():
                    if i.op == 'gep' and i.ops[0].kind == 'arg' and i.ops[0].idx == 0 and i.srcty.startswith('%struct.') and len(i.ops) > 2 \
                            and i.srcty not in ('%struct._object', '%struct.PyVarObject'):
                        n[i.srcty] = n.get(i.srcty, 0) + 1
        return max(sorted(n), key=lambda k: n[k]) if n else None

    def leaves(self, sty, off=0, depth=0):
        """(offset, (struct, index)) of the pointer fields of a struct, embedded structs included"""
        mod = self.prog.mod
        for k, t in enumerate(mod.structs.get(sty) or []):
            o = off + mod.field_off(sty, k)
            if t == 'ptr':
                yield o, (sty, k)
            elif t.startswith('%') and depth < 4:
                yield from self.leaves(t, o, depth + 1)

    def destructors(self):
        """second pass over the destructors: every field some function stores something owned in must be released"""
        owned = set()
        for d in self.fieldstores.values():
            owned.update(d)
        for r, fs in self.relfields.items():
            if any(not any(x.endswith('.tp_dealloc') for x in self.roles.get(self.prog.mod.funcs[f], [])) for f in fs):
                owned.add(r)
        for g, tn, slots, methods, _ in self.prog.py_types():
            f = slots.get('tp_dealloc')
            if f is None or not self.prog.is_project(f):
                continue
            sty = self.self_struct(g)
            if sty is None:
                continue
            ob = [(o, self.prog.struct_field(*r)) for o, r in self.leaves(sty) if r in owned]
            self.oblig[f.name] = ob
            self.stats['destructor fields'] = self.stats.get('destructor fields', 0) + len(ob)
            self.analyse(f)

    # ---- hooks of the failure analysis
    def guess(self, f):
        s = Analysis.guess(self, f)
        o = OwnSum()
        for k in Summary.__slots__:
            if hasattr(s, k):
                setattr(o, k, getattr(s, k))
        return o

    def analyse(self, f):
        s = OwnSum()
        s.kind = self.kind(f)
        s.chans = () if self.roles.get(f) else self.ch.of(f)
        s.fail = self.FAILCONST.get(s.kind)
        cl, eng, s = self.explore(f, s)
        if s.kind == 'neg1':
            fc = cl.failconst
            if len(fc) == 1 and None not in fc and fc != {-1}:
                s.fail = fc.pop()
                cl, eng, s = self.explore(f, s)
        s.steps, s.trunc = eng.steps, eng.truncated
        s.latch = cl.latch_ok or set()
        s.cbonly = bool(cl.causes) and all(self.cb_cause(f, i) for i in cl.causes)
        self.sum[f.name] = s
        return cl, eng, s, self.pending

    def explored(self, f, cl, eng, s):
        s.own = cl.summary()
        cl.destructor()
        self.viol[f.name] = cl.viol
        self.rets[f.name] = len(cl.rets)
        self.fieldstores[f.name] = cl.fstores


def null(eng, st, t):
    return t == K0 or eng.isnull(st, t) is True


class OwnClient(FailClient):
    def __init__(self, an, f, s):
        FailClient.__init__(self, an, f, s)
        self.viol = {}          # key -> message
        self.rets = []          # (outcome, effects)
        self.fstores = {}
        self.py = f.file.startswith('python/') or f.file == 'pointless_ext.c'
        self.dealloc = any(r.endswith('.tp_dealloc') for r in self.role)
        self.nown = self.nover = 0
        self.flagterm, self.dtor = {}, []
        self.insts = {i.idx: i for i in f.insts()}
        self.oblig = ()         # fields a destructor has to release: (offset, name)

    def start(self, eng, st):
        FailClient.start(self, eng, st)
        for a in self.f.args:
            if (self.f.name, a.idx) in self.an.nonnull:
                eng.upd(st, ('a', a.idx), ne=0)
        self.oblig = self.an.oblig.get(self.f.name, ())
        for off, nm in self.oblig:
            self.put(st, ('q', 0, off), (1, 'dtor', nm + '@0'))

    def starts(self, eng, st):
        """the interpreter passes null for absent keywords and for the value of a deletion"""
        out = [st]
        for k in self.an.nullable.get(self.f.name, ()):
            for s in list(out):
                s2 = s.copy()
                if eng.refine(s2, ('icmp', 'eq', ('a', k), K0, 64), True):
                    self.put(s2, ('n', k), True)
                    out.append(s2)
        return out

    def bad(self, eng, st, kind, what, inst, msg):
        key = (kind, what)
        if key not in self.viol:
            self.viol[key] = '%s in %s: %s; path %s' % (inst.loc(), self.f.name, msg, eng.trail_str(st))

    # ---- the balance
    @staticmethod
    def get(st, key):
        for k, v in st.ext:
            if k == key:
                return v
        return None

    @staticmethod
    def put(st, key, val):
        d = [e for e in st.ext if e[0] != key]
        if val is not None:
            d.append((key, val))
        st.ext = tuple(sorted(d, key=repr))

    def rename_ext(self, ext, sub):
        d = {}
        for (k, v) in ext:
            nk = (k[0], sub(k[1])) if k[0] in 'vdc' else k
            if nk in d and k[0] == 'v':
                v = v if v[0] >= d[nk][0] else d[nk]
            d[nk] = v
        return tuple(sorted(d.items(), key=repr))

    def extterms(self, ext):
        return [k[1] for k, v in ext if k[0] in 'vdc']

    def genphi(self, st, old, new):
        for tag in 'vd':
            v = self.get(st, (tag, old))
            if v is not None:
                self.put(st, (tag, old), None)
                self.put(st, (tag, new), v)

    def held(self, eng, st):
        """terms that are still reachable in the state"""
        keep = set()
        for t in st.env.values():
            engine.subterms(t, keep)
        for (a, ty), t in st.mem.items():
            engine.subterms(t, keep)
            engine.subterms(a, keep)
        return keep

    def pruned(self, eng, st):
        """forget released values nothing refers to any more"""
        if any(k[0] == 'd' for k, v in st.ext):
            keep = self.held(eng, st)
            st.ext = tuple((k, v) for k, v in st.ext if k[0] != 'd' or k[1] in keep)

    def joined(self, eng, a, b, j):
        """references lost by a join are no longer followed"""
        if j.ext:
            keep = self.held(eng, j)
            ka, kb = self.held(eng, a), self.held(eng, b)
            j.ext = tuple((k, v) for k, v in j.ext if k[0] not in 'vd' or k[1][0] == 'a' or k[1] in keep or (k[1] not in ka and k[1] not in kb))

    def acquire(self, eng, st, term, kind, inst, name):
        if term is None or null(eng, st, term) or term[0] in ('g', 'f'):
            return
        self.nown += 1
        self.put(st, ('d', term), None)
        v = self.get(st, ('v', term))
        n = 1 if v is None or kind != 'ref' else v[0] + 1
        self.put(st, ('v', term), None if n == 0 else (n, kind, '%s@%d' % (name, inst.idx)))

    def addr_key(self, st, addr, mem=None):
        """('c', address) of a local, ('q'/'r', k, off) of caller memory, ('q'/'r', k, (off, off)) of memory a
        pointer in caller memory refers to"""
        b = addr
        off = 0
        if b[0] == 'off':
            off, b = b[2], b[1]
        if b[0] == 'al':
            return ('c', addr)
        if b[0] == 'a':
            return ('q', b[1], off)
        if b[0] == 'i':
            for a in sorted(self.where(st, b, mem), key=repr):
                if a[0] == 'a':
                    return ('q', a[1], (0, off))
                if a[0] == 'off' and a[1][0] == 'a':
                    return ('q', a[1][1], (a[2], off))
        return None

    def addr_of(self, eng, mem, args, k, off):
        """the address an effect on parameter k means in the caller"""
        if k >= len(args) or args[k] == K0:
            return None
        if isinstance(off, tuple):
            b = (mem or {}).get((eng.off(args[k], off[0]), 'ptr'))
            return None if b is None else eng.off(b, off[1])
        return eng.off(args[k], off)

    def content_release(self, eng, st, addr, mem=None, kind='mem'):
        k = self.addr_key(st, addr, mem)
        if k is None:
            return
        if k[0] == 'c':
            self.put(st, k, None)
        elif self.get(st, k) is not None:
            self.put(st, k, None)
            self.put(st, ('r',) + k[1:], (1, kind))
        else:
            self.put(st, ('r',) + k[1:], (1, kind))

    def content_acquire(self, eng, st, addr, kind, inst, name, mem=None):
        k = self.addr_key(st, addr, mem)
        if k is None:
            return
        if k[0] == 'c':
            self.put(st, k, (1, kind, '%s@%d' % (name, inst.idx)))
        else:
            self.put(st, k, (1, kind, '%s@%d' % (name, inst.idx)))

    def where(self, st, term, mem=None):
        """constant addresses holding this value"""
        return [a for (a, ty), v in (st.mem if mem is None else mem).items() if v == term and a[0] in ('off', 'al', 'a')]

    def drop(self, eng, st, term, kind, inst, name, consumed=False):
        """one reference released (or handed over when consumed)"""
        if term is None or null(eng, st, term):
            return
        if term[0] in ('g', 'f', 'al'):
            return
        if self.get(st, ('d', term)) is not None:
            self.bad(eng, st, 'OVER', '%s:%s' % (name, self.get(st, ('d', term))[0].split('@')[0]), inst,
                     '%s releases a value already released' % name)
            return
        v = self.get(st, ('v', term))
        if v is not None:
            n = v[0] - 1
            fresh = not (v[1] == 'ref' and term[0] == 'a')
            self.put(st, ('v', term), (n,) + v[1:] if n else None)
            if n == 0 and fresh and not consumed and v[1] != 'bor':
                self.put(st, ('d', term), (v[2],))
            return
        ws = [a for a in self.where(st, term) if eng.base(a)[0] != 'al' or self.get(st, ('c', a)) is not None]
        for a in ws:
            k = self.addr_key(st, a)
            if kind == 'ref' and k is not None and self.get(st, ('r',) + k[1:]) == (1, 'ref'):
                self.bad(eng, st, 'OVER', '%s:field' % name, inst, '%s releases what a field holds once more' % name)
            self.content_release(eng, st, a, kind=kind)
        if ws:
            if not consumed:
                self.put(st, ('d', term), ('%s@%d' % (name, inst.idx),))
            return
        if term[0] == 'a' or kind == 'ref' and self.py and term[0] == 'i' and self.borrowed(term):
            self.put(st, ('v', term), (-1, kind, '%s@%d' % ('store' if consumed else name, inst.idx)))
        elif kind != 'ref' and not consumed and term[0] == 'i':
            self.put(st, ('d', term), ('%s@%d' % (name, inst.idx),))

    def borrowed(self, term):
        """the symbol stands for what a call returned, or for what one stored in a local variable"""
        i = self.insts.get(term[1])
        if i is None:
            return False
        return i.op == 'call' or i.op == 'load' and i.ops[0].kind == 'inst' and i.ops[0].op == 'alloca'

    def forget(self, st, term):
        self.put(st, ('v', term), None)

    # ---- memory
    def base(self, eng, t):
        return eng.base(t)

    def touch(self, eng, st, inst, addr, what):
        b = eng.base(addr)
        if null(eng, st, b) or addr == K0:
            self.bad(eng, st, 'NULL', what, inst, '%s through a null pointer' % what)
        elif st.ext and self.get(st, ('d', b)) is not None:
            self.bad(eng, st, 'USE', '%s:%s' % (what, self.get(st, ('d', b))[0].split('@')[0]), inst, '%s memory that was released' % what)

    def load(self, eng, st, inst, addr):
        FailClient.load(self, eng, st, inst, addr)
        self.touch(eng, st, inst, addr, 'reads')
        if self.oblig and inst.ty != 'ptr' and addr[0] == 'off' and addr[1] == ('a', 0) and (addr, inst.ty) not in st.mem:
            self.flagterm[('i', inst.idx)] = addr[2]

    def after_branch(self, eng, st, cond, truth):
        FailClient.after_branch(self, eng, st, cond, truth)
        if self.oblig:
            # what the branch says about the object's flags as they were on entry
            for t, off in self.flagterm.items():
                if engine.contains(cond, lambda x: x == t):
                    if eng.const_of(st, t, 32) == 0:
                        self.put(st, ('z', off), 0)
                    elif eng.excludes(eng.bounds(st, t, 32), 0, 32):
                        self.put(st, ('z', off), 1)

    def store(self, eng, st, inst, addr, val):
        r = FailClient.store(self, eng, st, inst, addr, val)
        self.touch(eng, st, inst, addr, 'writes')
        ty = inst.ops[0].ty
        if ty == 'ptr':
            k = self.addr_key(st, addr)
            if k is not None and k[0] == 'q' and (self.get(st, ('r',) + k[1:]) or (0,))[0] == 1:
                self.put(st, ('r',) + k[1:], (2, 'mem'))
            elif self.role:
                self.overwrite(eng, st, inst, addr, val)
        if ty not in ('ptr', 'i64') or val[0] in ('k', 'g', 'f'):
            return r
        b = eng.base(addr)
        fld = self.an.field_of(inst.ops[1])
        v = self.get(st, ('v', val))
        if b[0] == 'al':
            return r
        if fld is not None and v is not None and v[0] > 0:
            self.fstores.setdefault(fld, inst)
        if v is None and ty == 'ptr':
            # what a local object owned is handed to memory that outlives it
            w = self.claim(eng, st, val)
            if w is not None:
                k = self.addr_key(st, addr)
                if k is not None and k[0] == 'q':
                    self.content_acquire(eng, st, addr, w[1], inst, w[2].split('@')[0])
                return r
            if val[0] == 'a' and fld in self.an.relfields and fld not in self.an.refreleased and not self.role:
                self.put(st, ('v', val), (-1, 'mem', 'store@%d' % inst.idx))
                return r
        if v is None or v[0] <= 0:
            # a borrowed Python object stored where the object's destructor releases it
            if ty == 'ptr' and fld in self.an.relfields and self.py and self.reffield(fld) and not null(eng, st, val):
                if val[0] in ('a', 'i') and not self.moved(st, val):
                    n = (v[0] if v else 0) - 1
                    self.put(st, ('v', val), (n, 'bor', 'store@%d' % inst.idx))
            return r
        if fld is not None and fld not in self.an.relfields and v[1] in ('ref', 'mem'):
            return r            # nothing releases that field: the function stays responsible
        n = v[0] - 1 if v[1] == 'ref' else 0
        self.put(st, ('v', val), (n,) + v[1:] if n else None)
        k = self.addr_key(st, addr)
        if k is not None and k[0] == 'q':
            self.content_acquire(eng, st, addr, v[1], inst, v[2].split('@')[0])
        return r

    def overwrite(self, eng, st, inst, addr, val):
        """the object's own field gets a new value: what it owned must have been released or be taken over"""
        if not (addr[0] == 'off' and addr[1] == ('a', 0)):
            return
        fld = self.an.field_of(inst.ops[1])
        if fld not in self.an.relfields:
            return
        self.nover += 1
        old = st.mem.get((addr, 'ptr'))
        if old is None:
            self.bad(eng, st, 'LEAK', 'overwrite:%s' % self.an.prog.struct_field(*fld), inst,
                     'overwrites field %s without releasing what it owned' % self.an.prog.struct_field(*fld))
            return
        if old == val or null(eng, st, old):
            return
        if self.get(st, ('v', old)) is None and old[0] == 'i':
            self.put(st, ('v', old), (1, 'ref' if fld in self.an.refreleased else 'mem', 'field %s@%d' % (self.an.prog.struct_field(*fld), inst.idx)))

    def claim(self, eng, st, val):
        """the value is what a field of a local object owns: that object gives it up"""
        for a in self.where(st, val):
            k = self.addr_key(st, a)
            if k is not None and k[0] == 'c':
                v = self.get(st, k)
                if v is not None:
                    self.put(st, k, None)
                    return v
        return None

    def moved(self, st, val):
        """the value was just taken out of another owned place"""
        return bool(self.where(st, val))

    def reffield(self, fld):
        return fld in self.an.refreleased

    # ---- calls
    def call(self, eng, st, inst, args):
        an = self.an
        n = strip_dot(inst.cname())
        ts = an.prog.targets(inst)
        proj = an.callees(inst, ts)
        if not proj:
            n = an.extname(inst, n, ts)
        before = st.ps[0]
        self.argcheck(eng, st, inst, n, proj, args)
        if n is not None and n.startswith('llvm.memcpy'):
            self.block_copy(eng, st, inst, args)
            return FailClient.call(self, eng, st, inst, args)
        if n is not None and n.startswith(('llvm.memset', 'llvm.memmove')) and len(args) > 2 and args[2] != K0:
            self.touch(eng, st, inst, args[0], 'writes')
            if n.startswith('llvm.memmove'):
                self.touch(eng, st, inst, args[1], 'reads')
        # values that may be released: look them up before the call disturbs memory
        held = {}
        for k, t in enumerate(args):
            if inst.ops[k].ty == 'ptr':
                held[k] = self.where(st, t)
        memin = dict(st.mem) if proj else None
        res = FailClient.call(self, eng, st, inst, args)
        if res is None:
            eng.default_call(st, inst, args)
            res = [(st, st.env.get(inst))]
        if len(res) == 1 and len(proj) == 1:
            res = self.refusal(eng, res, inst, proj[0])
        for k in held:
            # a local its callees only read keeps its contents
            b = eng.base(args[k])
            if b[0] == 'al' and proj and all(self.an.prog.is_project(p) and (p.name, k) not in self.an.written for p in proj) \
                    and not any(eng.base(v) == b for v in st.mem.values()) \
                    and not any(j != k and eng.base(a) == b for j, a in enumerate(args)):
                for (a, ty), v in memin.items():
                    if eng.base(a) == b:
                        for s2, _ in res:
                            s2.mem[(a, ty)] = v
        for j, (s2, t) in enumerate(res):
            if t is None and inst.ty != 'void':
                t = s2.env.get(inst)
            newfail = s2.ps[0] and s2.ps[0] != before
            if proj:
                u = self.apply(eng, s2, inst, args, proj, t, newfail or s2 is self.refused, memin)
                if u is not None:
                    res[j] = (s2, u)
            else:
                self.extern(eng, s2, inst, args, n, t, newfail)
        return res

    refused = None

    def refusal(self, eng, res, inst, p):
        """a callee that can decline (without any operation having failed) owns differently when it does"""
        s = self.an.sum.get(p.name)
        if s is None or s.own is None or s.fallible or s.fail is None or inst.ty not in ('i32', 'i64'):
            return res
        o = s.own
        if o.get('ok') is None or o.get('fail') is None or all(o['ok'][k] == o['fail'][k] for k in ('par', 'rel', 'acq')):
            return res
        st, t = res[0]
        if t is None:
            t = st.env.get(inst)
        w = engine.width(inst.ty)
        s2 = st.copy()
        out = []
        if eng.refine(st, ('icmp', 'ne', t, ('k', s.fail), w), True):
            out.append((st, t))
        if eng.refine(s2, ('icmp', 'eq', t, ('k', s.fail), w), True):
            self.refused = s2
            out.append((s2, t))
        return out

    def argcheck(self, eng, st, inst, n, proj, args):
        """released or null values handed to a function that uses them"""
        if proj:
            need = set.intersection(*[an_d for an_d in (set(self.an.derefs.get(t.name, ())) for t in proj)])
            for k in need:
                if k < len(args) and null(eng, st, args[k]):
                    self.bad(eng, st, 'NULL', 'passes to %s' % proj[0].name, inst, 'passes a null pointer to %s, which dereferences it' % proj[0].name)
        elif n is not None:
            ks = LIBC_NONNULL.get(n, ())
            if n.startswith(('Py', '_Py')) and n not in NULLOK and not n.startswith(('PyErr_', 'PyArg_', 'PyType_Is')) and args and inst.ops[0].ty == 'ptr':
                ks = (0,)
            for k in ks:
                if k < len(args) and null(eng, st, args[k]):
                    self.bad(eng, st, 'NULL', 'passes to %s' % n, inst, 'passes a null pointer to %s' % n)
        if n in ('free', 'realloc', 'fclose', 'close', 'munmap') or (n or '').startswith(('llvm.lifetime', 'llvm.dbg')):
            return
        for k, t in enumerate(args):
            if inst.ops[k].ty != 'ptr' or not st.ext:
                continue
            d = self.get(st, ('d', eng.base(t)))
            if d is not None and n not in DEC and not any((p.name, k) in self.an.relparam for p in proj):
                self.bad(eng, st, 'USE', 'passes:%s' % d[0].split('@')[0], inst, 'passes on a value that was released')

    def block_copy(self, eng, st, inst, args):
        """a struct copied out of a local takes what it owns along"""
        src, dst = args[1], args[0]
        bs, bd = eng.base(src), eng.base(dst)
        self.touch(eng, st, inst, dst, 'writes')
        self.touch(eng, st, inst, src, 'reads')
        if bs[0] == 'a' and bd[0] != 'al':
            self.put(st, ('o', bs[1]), (1,))
        if bs[0] != 'al':
            return
        self.copy_out(eng, st, bs, bd, src, dst, inst)

    def copy_out(self, eng, st, bs, bd, src, dst, inst):
        for k, v in list(st.ext):
            if k[0] == 'c' and eng.base(k[1]) == bs:
                self.put(st, k, None)
                if bd[0] == 'al':
                    o = k[1][2] if k[1][0] == 'off' else 0
                    so = src[2] if src[0] == 'off' else 0
                    self.put(st, ('c', eng.off(dst, o - so)), v)
                elif bd[0] == 'a' and dst[0] in ('a', 'off'):
                    o = k[1][2] if k[1][0] == 'off' else 0
                    so = src[2] if src[0] == 'off' else 0
                    t = eng.off(dst, o - so)
                    self.put(st, ('q', bd[1], t[2] if t[0] == 'off' else 0), v)
        if bd[0] != 'al':
            for (a, ty), t in list(st.mem.items()):
                if eng.base(a) == bs and self.get(st, ('v', t)) is not None:
                    self.forget(st, t)

    def extern(self, eng, st, inst, args, n, t, newfail):
        if n is None:
            return
        if n in INC:
            v = self.get(st, ('v', args[0]))
            if args[0][0] in ('a', 'i', 'phi', 'old', 'top') and not null(eng, st, args[0]):
                c = (v[0] if v else 0) + 1
                self.put(st, ('v', args[0]), (c, 'ref' if c > 0 or v is None else v[1], v[2] if v and v[0] > 0 else '%s@%d' % (n, inst.idx)) if c else None)
            return
        if n in DEC:
            self.drop(eng, st, args[0], 'ref', inst, n)
            return
        if n in NEWREF:
            if t is not None and not null(eng, st, t):
                self.acquire(eng, st, t, 'ref', inst, n)
            if n == 'Py_BuildValue' and inst.ops[0].kind in ('global', 'cexpr'):
                self.build_value(eng, st, inst, args)
            return
        if n in STEAL and not newfail:
            if len(args) > STEAL[n]:
                self.drop(eng, st, args[STEAL[n]], 'ref', inst, n, consumed=True)
            return
        if n in ALLOC:
            if n == 'realloc' and not newfail:
                self.drop(eng, st, args[0], 'mem', inst, n, consumed=False)
                # (the block may have moved: the old pointer is gone)
            if t is not None and not null(eng, st, t):
                self.acquire(eng, st, t, 'mem', inst, n)
            return
        if n in ACQ:
            if not newfail and t is not None:
                self.acquire(eng, st, t, ACQ[n], inst, n)
                if n == 'fdopen':
                    self.drop(eng, st, args[0], 'fd', inst, n, consumed=True)
            return
        if n in REL:
            kind, k = REL[n]
            if self.dealloc and n == 'PyObject_Free':
                return
            self.drop(eng, st, args[k], kind, inst, n)
            return
        if n in JUDY_INS:
            if not newfail:
                self.content_acquire(eng, st, args[0], 'judy', inst, n)
            return
        if n in JUDY_FREE:
            self.content_release(eng, st, args[0])

    def build_value(self, eng, st, inst, args):
        """format N hands over a reference"""
        from common import cstr
        fmt = cstr(inst.ops[0])
        if not fmt:
            return
        k = 1
        for ch in fmt:
            if ch in '()[]{},: \t':
                continue
            if k < len(args) and ch == 'N':
                self.drop(eng, st, args[k], 'ref', inst, 'Py_BuildValue', consumed=True)
            k += 1

    def apply(self, eng, st, inst, args, proj, t, newfail, memin):
        an = self.an
        effs = []
        for p in proj:
            s = an.sum.get(p.name)
            if s is None or s.own is None:
                effs.append(None)
                continue
            o = s.own.get('fail' if newfail else 'ok')
            if o is None:
                o = s.own.get('ok') or s.own.get('fail')
            effs.append(o)
        if any(e is None for e in effs):
            return None
        # consumed / retained parameters
        for k, a in enumerate(args):
            ds = set()
            for e in effs:
                ds |= e['par'].get(k, {(0, 'none', '')})
            if ds == {(0, 'none', '')}:
                continue
            if len({d[0] for d in ds}) == 1:
                d = min(ds)
                if d[0] < 0:
                    for _ in range(-d[0]):
                        self.drop(eng, st, a, d[1], inst, proj[0].name, consumed=(d[2] == 'kept'))
                elif d[0] > 0:
                    self.acquire(eng, st, a, d[1], inst, proj[0].name)
            elif min(ds)[0] < 0 and min(ds)[1] == 'ref' and self.get(st, ('v', a)) is None:
                # on some path it keeps or releases a reference nobody here owns
                self.drop(eng, st, a, 'ref', inst, proj[0].name, consumed=(min(ds)[2] == 'kept'))
            else:
                self.forget(st, a)
        # contents of arguments
        rel, acq, out = set(), {}, set()
        for e in effs:
            rel |= e['rel']
            acq.update(e['acq'])
            out |= e['out']
        for k, off, how in sorted(rel, key=repr, reverse=True):
            addr = self.addr_of(eng, memin, args, k, off)
            if addr is not None:
                old = (memin or {}).get((addr, 'ptr'))
                self.content_release(eng, st, addr, memin, how[1])
                ak = self.addr_key(st, addr, memin)
                if ak is not None and ak[0] == 'q' and how[0] == 2:
                    self.put(st, ('r',) + ak[1:], (2, 'mem'))
                if old is not None and old[0] != 'k' and self.get(st, ('v', old)) is not None:
                    self.drop(eng, st, old, 'mem', inst, proj[0].name)
        for (k, off), kind in acq.items():
            addr = self.addr_of(eng, memin, args, k, off)
            if addr is not None:
                self.content_acquire(eng, st, addr, kind, inst, proj[0].name, memin)
        for k in out:
            if k < len(args) and eng.base(args[k])[0] == 'a':
                self.put(st, ('o', eng.base(args[k])[1]), (1,))
            if k < len(args) and eng.base(args[k])[0] == 'al':
                b = eng.base(args[k])
                for (a, ty), v in list((memin or {}).items()):
                    if eng.base(a) == b and self.get(st, ('v', v)) is not None:
                        self.forget(st, v)
                for kk, v in list(st.ext):
                    if kk[0] == 'c' and eng.base(kk[1]) == b:
                        self.put(st, kk, None)
        # result
        if t is not None and inst.ty in ('ptr', 'i32') and not null(eng, st, t):
            rs = set()
            for e in effs:
                rs |= e['ret']
            rs.discard('null')
            rs.discard('const')
            if len(rs) == 1:
                r = rs.pop()
                if r[0] == 'new':
                    self.acquire(eng, st, t, r[1], inst, proj[0].name)
                elif r[0] == 'arg' and r[1] < len(args) and inst.ty == 'i32':
                    # a handle passed through: assumed not to be the failure constant its callers test for
                    eng.upd(st, args[r[1]], ne=-1, w=32)
                    st.env[inst] = args[r[1]]
                    return args[r[1]]
                elif r[0] == 'load' and r[1][0] < len(args):
                    addr = eng.off(args[r[1][0]], r[1][1])
                    old = st.mem.get((addr, 'ptr'))
                    if old is not None:
                        st.env[inst] = old
                        return old
                    st.mem[(addr, 'ptr')] = t
        return t

    # ---- returns
    def ret(self, eng, st, inst, val):
        FailClient.ret(self, eng, st, inst, val)
        failed = st.ps[0]
        w = engine.width(self.f.retty)
        out = 'ok'
        if failed:
            out = 'fail'
        elif val is not None and self.s.kind in ('bool', 'ptr', 'neg1') and eng.const_of(st, val, w) == self.s.fail:
            out = 'fail' if self.s.kind != 'ptr' else 'ok'
        eff = {'par': {}, 'rel': set(), 'acq': {}, 'out': set(), 'ret': None}
        kept = []
        retown = False
        if val is not None and self.f.retty == 'ptr' and st.ext:
            w = self.claim(eng, st, val)
            if w is not None:
                retown = w[1]
        for k, v in st.ext:
            if k[0] == 'v':
                t = k[1]
                n = v[0]
                if null(eng, st, t):
                    continue
                if n > 0 and val is not None and t == val:
                    retown = v[1] if v[1] != 'bor' else 'ref'
                    n -= 1
                if n == 0:
                    continue
                if t[0] == 'a':
                    if n < 0 and (self.role and not self.dealloc):
                        self.bad(eng, st, 'OVER', v[2].split('@')[0], inst,
                                 'gives away a reference it does not own (%s)' % v[2].split('@')[0])
                    if n > 0:
                        if v[1] != 'ref' or self.role:
                            self.leak(eng, st, inst, v)
                    eff['par'][t[1]] = (n, 'ref' if v[1] == 'bor' else v[1], 'kept' if v[1] == 'bor' or v[2].startswith('store@') else '')
                elif n > 0:
                    self.leak(eng, st, inst, v)
                elif self.role or self.py:
                    self.bad(eng, st, 'OVER', v[2].split('@')[0], inst, 'gives away a reference it does not own (%s)' % v[2].split('@')[0])
            elif k[0] == 'c':
                self.leak(eng, st, inst, v)
            elif k[0] == 'q' and v[1] == 'dtor':
                cell = st.mem.get((eng.off(('a', 0), k[2]), 'ptr'))
                if not (cell is not None and null(eng, st, cell)):
                    kept.append((k[2], v[2].split('@')[0]))
            elif k[0] == 'q':
                eff['acq'][(k[1], k[2])] = v[1]
                if out == 'fail' and v[1] in ('file', 'map', 'fd'):
                    self.bad(eng, st, 'LEAKARG', '%s:%s' % (v[1], v[2].split('@')[0]), inst,
                             'fails but leaves the %s opened by %s open in its argument' % (v[1], v[2].split('@')[0]))
            elif k[0] == 'o':
                eff['out'].add(k[1])
            elif k[0] == 'r':
                eff['rel'].add((k[1], k[2], v))
                if v == (1, 'ref') and k[1] == 0 and self.role and self.py and not self.dealloc:
                    self.bad(eng, st, 'OVER', 'field', inst, 'leaves a field pointing to what it released or gave away')
        if val is not None and self.f.retty == 'ptr':
            if null(eng, st, val):
                eff['ret'] = 'null'
            elif retown:
                eff['ret'] = ('new', retown)
            elif val[0] in ('g', 'f', 'k'):
                eff['ret'] = 'const'
            else:
                eff['ret'] = ('bor', '')
                for a in self.where(st, val):
                    if a[0] == 'a' or a[0] == 'off' and a[1][0] == 'a':
                        eff['ret'] = ('load', (a[1], 0) if a[0] == 'a' else (a[1][1], a[2]))
                if self.role and self.py and val[0] in ('a', 'i') and self.pyret() and eng.isnull(st, val) is not True:
                    self.bad(eng, st, 'BORROW', 'return', inst, 'returns a reference it does not own')
        elif val is not None and retown:
            eff['ret'] = ('new', retown)
        elif val is not None and self.f.retty == 'i32' and self.s.kind == 'value':
            eff['ret'] = ('arg', val[1]) if val[0] == 'a' else ('other',)
        if self.oblig:
            self.dtor.append((dict(kept), {k[1]: v for k, v in st.ext if k[0] == 'z'}, inst, eng.trail_str(st)))
        eff['par'] = tuple(sorted(eff['par'].items()))
        self.rets.append((out, eff))

    def pyret(self):
        return True

    def destructor(self):
        """every owned field is released, except where a flag says it holds nothing: the flag is zero there and
        nonzero wherever the field is released"""
        for off, nm in self.oblig:
            rel = [z for kept, z, inst, trail in self.dtor if off not in kept]
            for kept, z, inst, trail in self.dtor:
                if off not in kept:
                    continue
                if rel and any(v == 0 and all(r.get(fo) == 1 for r in rel) for fo, v in z.items()):
                    continue
                self.viol.setdefault(('LEAK', 'destructor:' + nm), '%s in %s: destructor returns without releasing field %s; path %s' % (
                    inst.loc(), self.f.name, nm, trail))

    def leak(self, eng, st, inst, v):
        self.bad(eng, st, 'LEAK', '%s:%s' % (v[1], v[2].split('@')[0]), inst,
                 'returns without releasing the %s acquired by %s (instruction %s)' % (
                     {'ref': 'reference', 'mem': 'memory', 'bor': 'reference'}.get(v[1], v[1]), v[2].split('@')[0], v[2].split('@')[1]))

    def summary(self):
        res = {}
        for out in ('ok', 'fail'):
            es = [e for o, e in self.rets if o == out]
            if not es:
                res[out] = None
                continue
            par = {}
            for e in es:
                d = dict(e['par'])
                for k in range(len(self.f.args)):
                    par.setdefault(k, set()).add(d.get(k, (0, 'none', '')))
            par = {k: v for k, v in par.items() if v != {(0, 'none', '')}}
            rel = set().union(*[e['rel'] for e in es])
            acq = {}
            for e in es:
                acq.update(e['acq'])
            res[out] = {'par': par, 'rel': rel, 'acq': acq, 'out': set().union(*[e['out'] for e in es]), 'ret': {e['ret'] for e in es if e['ret']}}
        return res


OwnAnalysis.client = OwnClient
