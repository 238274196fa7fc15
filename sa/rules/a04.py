"""A04: what open() accepts has been validated: every count, reference, offset and extent a reader relies on was checked."""
import build
import engine
from common import AnalysisBroken, Program, address_taken, sccs, strip_dot
from engine import Client, Engine, K0, K1
from lin import Lin, show

KEEP = {'bm_set_', 'bm_is_set_', 'bm_reset_', 'pointless_validate', 'pointless_init', 'pointless_close', 'pointless_hash_table_validate',
        'pointless_hash_table_probe', 'pointless_hash_reader_32', 'pointless_hash_compute_n_buckets', 'pointless_is_hashable', 'pointless_walk',
        'pointless_cycle_marker_read', 'pointless_cycle_marker', 'pointless_calloc', 'pointless_malloc', 'pointless_free', 'pointless_container_id',
        'pointless_n_containers', 'pointless_open_f_skip_validate', 'pointless_open_b_skip_validate', 'pointless_open_f', 'pointless_open_b'}
FILES = ('src/pointless_validate', 'src/pointless_int_ops', 'src/pointless_reader', 'src/pointless_walk', 'src/pointless_value', 'src/pointless_bitvector')

# the file format: offset table and body of each kind of value
VEC = {'VECTOR_VALUE': 8, 'VECTOR_VALUE_HASHABLE': 8, 'VECTOR_I8': 1, 'VECTOR_U8': 1, 'VECTOR_I16': 2, 'VECTOR_U16': 2, 'VECTOR_I32': 4,
       'VECTOR_U32': 4, 'VECTOR_I64': 8, 'VECTOR_U64': 8, 'VECTOR_FLOAT': 4}
INLINE = ('VECTOR_EMPTY', 'BITVECTOR_0', 'BITVECTOR_1', 'BITVECTOR_01', 'BITVECTOR_10', 'BITVECTOR_PACKED', 'EMPTY_SLOT', 'I32', 'U32',
          'FLOAT', 'BOOLEAN', 'NULL')
KIND = {'UNICODE_': 'string_unicode', 'STRING_': 'string_unicode', 'BITVECTOR': 'bitvector', 'SET_VALUE': 'set', 'MAP_VALUE_VALUE': 'map'}
KIND.update({k: 'vector' for k in VEC})
CONTAINER = ('VECTOR_VALUE', 'VECTOR_VALUE_HASHABLE', 'SET_VALUE', 'MAP_VALUE_VALUE')
KINDS = ('string_unicode', 'vector', 'bitvector', 'set', 'map')
POINTEE = {('pointless_validate_state_t', 'context'): 'pointless_validate_context_t', ('pointless_validate_context_t', 'p'): 'pointless_t',
           ('pointless_t', 'header'): 'pointless_header_t'}


class Inl(Program):
    def _inline_set(self, m, keep, maxinl):
        calls = {f.name: {i.callee.name for i in f.insts() if i.op == 'call' and i.callee.kind == 'func' and not i.callee.decl} for f in m.defined()}
        size = {f.name: sum(1 for _ in f.insts()) for f in m.defined()}
        rec = set()
        for s in sccs(calls):
            if len(s) > 1 or s[0] in calls.get(s[0], ()):
                rec.update(s)
        out = {f.name for f in m.defined() if f.file.startswith(FILES) and f.name not in rec and f.name not in KEEP and size[f.name] <= 900}
        # helpers of the extension which may open a file without validation: their callers decide
        taken = address_taken(m)
        skip = {f.name for f in m.defined() if any(i.op == 'call' and 'skip_validate' in (i.cname() or '') for i in f.insts())}
        more = True
        while more:
            more = {n for n in calls if calls[n] & skip} - skip
            skip |= more
        return out | {f.name for f in m.defined() if f.name in skip and f.file.startswith('python/') and f.linkage in (8, 9) and f.name not in taken
                      and f.name not in rec and size[f.name] <= 900}


class Reader(Client):
    """gives every value loaded from the file or from pointless_t one name, wherever it is loaded"""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.types = {}         # base term -> struct name
        self.aw = {}
        self.names = {}
        self.mods = {}

    def lin(self, eng, st):
        return Lin(eng, st, self.aw)

    def field(self, sname, off):
        for o, n, _, sz in self.prog.mod.fieldnames.get(sname, ()):
            if o <= off * 8 < o + max(sz, 8):
                return n, off - o // 8
        return None

    def name(self, eng, st, addr):
        """canonical name of a cell, or None for cells that may change"""
        off = 0
        b = addr
        if b[0] == 'off':
            off, b = b[2], b[1]
        sn = self.types.get(b)
        if sn is not None:
            f = self.field(sn, off)
            if f is None:
                return None
            return ('cell', b, sn, f[0], f[1])
        e = self.lin(eng, st).u(addr, 64)
        roots = [t for t in e if t is not None and t[0] == 'a' and (t[1] in self.tables or t[1] == 'heap_ptr')]
        if len(roots) == 1 and e[roots[0]] == 1:
            rest = {t: c for t, c in e.items() if t != roots[0]}
            return ('data', roots[0][1], rest, show(rest))
        return None

    tables = {k + '_offsets_64': k for k in KINDS}

    def sym(self, n, w):
        t = ('a', n)
        self.aw[t] = w
        return t

    def load(self, eng, st, inst, addr):
        n = self.name(eng, st, addr)
        if n is None:
            return
        w = engine.width(inst.ty)
        if n[0] == 'cell':
            _, b, sn, f, d = n
            v = self.cell(eng, st, inst, b, sn, f, d, w)
            if v is None:
                return
        elif n[1] in self.tables:
            v = self.table(eng, st, inst, n[1], n[2], w)
        else:
            self.heap(eng, st, inst, n[2], max(1, w // 8) if w else self.size(inst.ty))
            v = self.sym('heap[%s]:%s' % (n[3], inst.ty), w)
            self.names[v] = n[2]
            v = self.known(eng, st, v, n[2])
        st.mem[(addr, inst.ty)] = v

    def edge(self, eng, st, src, dst):
        """where loop counters start; what was read in one round of a loop is forgotten in the next"""
        body = eng.loops.get(dst)
        if body is None:
            return
        if src not in body:
            ps = [x for x in st.ps or () if not (x[0] == 'ind' and any(x[1] == i.idx for i in dst.insts))]
            for i in dst.insts:
                if i.op != 'phi':
                    break
                t = st.env.get(i)
                if t is not None and all(l[0] in ('a', 'k') for l in engine._leaves(t)):
                    ps.append(('ind', i.idx, t))
            st.ps = tuple(ps)
        else:
            def stale(t):
                return engine.contains(t, lambda x: x[0] == 'it' or (x[0] == 'a' and isinstance(x[1], str) and ("('phi'" in x[1] or "('it'" in x[1])))
            st.facts = {t: f for t, f in st.facts.items() if not stale(t)}
            st.rels = frozenset(r for r in st.rels if not stale(r[1]) and not stale(r[2]))
            st.mem = {k: t for k, t in st.mem.items() if not stale(k[0]) and not stale(t)}

    def size(self, ty):
        return self.prog.mod.size_of(ty) or 8

    def cell(self, eng, st, inst, b, sn, f, d, w):
        raise NotImplementedError

    def table(self, eng, st, inst, tab, rest, w):
        return self.sym('%s[%s]' % (tab, show(rest)), w)

    def heap(self, eng, st, inst, rest, size):
        pass

    def known(self, eng, st, v, rest):
        return v


class Pass(Reader):
    """the validator callback, for one type tag and one pass"""

    def __init__(self, prog, rep, fn, tag, tval, npass, key):
        super().__init__(prog, rep)
        self.fn, self.tag, self.tval, self.npass, self.key = fn, tag, tval, npass, key
        self.types = {('a', 0): 'pointless_t', ('a', 'p'): 'pointless_t', ('a', 1): 'pointless_value_t', ('a', 3): 'pointless_validate_state_t'}
        self.outcomes = {}
        self.nload = 0
        self.nret = 0

    def v(self, what, msg, eng=None, st=None, inst=None):
        self.rep.bad('%s:%s' % (what, self.tag), '%s: values of type %s, pass %d: %s%s%s' % (
            inst.loc() if inst is not None else self.fn.name, self.tag, self.npass, msg,
            ' in ' + inst.fn.name if inst is not None else '', ' (path %s)' % eng.trail_str(st) if st is not None else ''))

    def start(self, eng, st):
        st.ps = ()

    def cell(self, eng, st, inst, b, sn, f, d, w):
        if sn == 'pointless_validate_state_t':
            if f == 'pass':
                return ('k', self.npass)
            if f == 'error':
                return None
            if f in ('vector', 'set', 'map', 'cycle_marker'):
                return self.sym('visited.' + f, 64)
        if sn == 'pointless_value_t' and b == ('a', 1):
            if f == 'type':
                return ('k', self.tval) if self.tval is not None else self.sym('v.type', w)
            return self.sym('v.data' if w == 32 and d == 0 else 'v.data+%d:%d' % (d, w), w)
        if sn == 'pointless_t':
            v = self.sym(f, w)
        elif sn == 'pointless_header_t' and f.startswith('n_'):
            v = self.sym(f, w)
        elif (sn, f) == ('pointless_validate_context_t', 'p'):
            v = self.sym('p', 64)
        else:
            v = self.sym('%s.%s%s' % (sn, f, '+%d' % d if d else ''), w)
        if (sn, f) in POINTEE:
            self.types[v] = POINTEE[(sn, f)]
        return v

    def table(self, eng, st, inst, tab, rest, w):
        k = self.tables[tab]
        self.nload += 1
        # index < n_k
        L = self.lin(eng, st)
        idx = {t: c // 8 for t, c in rest.items()}
        if all(c % 8 == 0 for c in rest.values()):
            ref = [t[1] for t in idx if t is not None]
            if self.npass == 1 and not L.prove(L.add(L.add({self.sym('n_' + k, 32): 1}, L.const(1), -1), idx, -1)):
                self.v('offset-index', 'offset table of %s read at [%s] without a check against n_%s' % (k, show(idx), k), eng, st, inst)
            if ref == ['v.data'] and KIND.get(self.tag) != k:
                self.v('offset-table', 'offset looked up in the table of %s' % k, eng, st, inst)
        return self.sym('%s[%s]' % (tab, show(idx)), w)

    def extent(self, eng, st, rest, size):
        """heap bytes [rest, rest+size) lie inside the heap"""
        L = self.lin(eng, st)
        goal = L.add({self.sym('heap_len', 64): 1}, L.const(size) if isinstance(size, int) else size, -1)
        goal = L.add(goal, rest, -1)
        L.facts()
        return L.prove(goal)

    def heap(self, eng, st, inst, rest, size):
        self.nload += 1
        if self.npass == 1 and not self.extent(eng, st, rest, size):
            self.v('unchecked-read', 'heap read at [%s], %d bytes, before the extent was checked against heap_len' % (show(rest), size), eng, st, inst)

    def known(self, eng, st, v, rest):
        """after pass 1 the vectors in the header of a set or map have their prescribed types"""
        if self.npass == 1 or self.tag not in ('SET_VALUE', 'MAP_VALUE_VALUE'):
            return v
        off = ('a', '%s_offsets_64[v.data]' % KIND[self.tag])
        if rest.get(off) == 1 and set(rest) <= {off, None}:
            o = rest.get(None, 0)
            if o == 8:
                return ('k', self.key['VECTOR_U32'])
            if o == 16:
                return ('k', self.key['VECTOR_VALUE_HASHABLE'])
            if o == 24 and self.tag == 'MAP_VALUE_VALUE':
                vals = sorted((self.key['VECTOR_VALUE'], self.key['VECTOR_VALUE_HASHABLE']))
                eng.upd(st, v, ulo=vals[0], uhi=vals[1], w=32)
        return v

    def is_error(self, addr):
        return addr[0] == 'off' and addr[1] == ('a', 3) and addr[2] == self.key['error_off']

    def store(self, eng, st, inst, addr, val):
        if self.is_error(addr):
            st.ps = tuple(x for x in st.ps if x[0] != 'error') + ((('error', True),) if eng.isnull(st, val) is False else ())

    # ---- calls
    def call(self, eng, st, inst, args):
        n = strip_dot(inst.cname())
        if any(self.is_error(a) for a in args) and ('error', True) not in st.ps:
            st.ps = st.ps + (('error', True),)
        if n in ('bm_is_set_', 'bm_set_'):
            bm = args[0][1] if args[0][0] == 'a' else None
            idx = self.lin(eng, st).u(args[1], 64)
            if bm is None or not str(bm).startswith('visited.'):
                return None
            k = bm[8:]
            if k == 'cycle_marker' and idx != {('a', 'container_id'): 1}:
                self.v('cycle-index', 'the marks of the cycles are looked up with [%s] instead of the number of the container' % show(idx), eng, st, inst)
            if k in ('vector', 'set', 'map'):
                if idx != {('a', 'v.data'): 1} or KIND.get(self.tag) != k or self.tag not in CONTAINER:
                    self.v('visited-index', 'visited bitmap of %ss indexed by [%s]' % (k, show(idx)), eng, st, inst)
                L = self.lin(eng, st)
                if self.npass == 1 and not L.prove(L.add(L.add({self.sym('n_' + k, 32): 1}, L.const(1), -1), idx, -1)):
                    self.v('visited-bound', 'visited bitmap of %ss used before the reference was checked against n_%s' % (k, k), eng, st, inst)
            if n == 'bm_is_set_':
                return self.two(eng, st, inst, 'seen' if k != 'cycle_marker' else 'cycle', args)
            st.ps = st.ps + (('mark', k),)
            return None
        if n == 'pointless_container_id' and args[1] == ('a', 1):
            t = self.sym('container_id', 32)
            st.env[inst] = t
            return [(st, t)]
        if n in ('pointless_hash_table_validate', 'pointless_is_hashable'):
            return self.two(eng, st, inst, n, args)
        return None

    def two(self, eng, st, inst, what, args):
        a, b = st.copy(), st
        out = []
        for s, truth in ((a, True), (b, False)):
            t = eng.fresh(s, inst)
            w = engine.width(inst.ty)
            if truth:
                eng.refine(s, ('icmp', 'ne', t, K0, w), True)
            else:
                eng.refine(s, ('icmp', 'eq', t, K0, w), True)
                t = K0
            s.env[inst] = t
            s.ps = tuple(x for x in s.ps if x[0] != what) + ((what, truth) + ((tuple(args),) if what.startswith('pointless_hash_table') else ()),)
            out.append((s, t))
        return out

    def rename(self, ps, sub):
        return tuple(tuple(y if not isinstance(y, tuple) else sub(y) if isinstance(y[0], str) else tuple(sub(z) for z in y) for y in x) for x in ps)

    def psterms(self, ps):
        return [z for x in ps for y in x if isinstance(y, tuple) for z in ((y,) if isinstance(y[0], str) else y)]

    def havocked(self, *a):
        pass

    # ---- results
    def ret(self, eng, st, inst, val):
        c = eng.const_of(st, val, 32)
        if c is None:
            self.v('action', 'the callback returns something other than a walk action', eng, st, inst)
            return
        self.nret += 1
        ps = {x[0]: x[1] for x in st.ps}
        L = self.lin(eng, st)
        tag, p = self.tag, self.npass
        VISIT, UP, STOP = self.key['VISIT_CHILDREN'], self.key['MOVE_UP'], self.key['STOP']
        self.outcomes[c] = self.outcomes.get(c, 0) + 1
        if c == STOP:
            if not ps.get('error'):
                self.v('silent-stop', 'the walk is stopped without an error being set, so that the file is accepted', eng, st, inst)
            return
        if p == 2 and tag == 'VECTOR_VALUE_HASHABLE' and ps.get('cycle') is not False:
            self.v('cycle', 'accepted without a test that it is not part of a cycle', eng, st, inst)
        if c == UP and tag in CONTAINER:
            if not ps.get('seen'):
                self.v('skipped', 'children are skipped although the container was not visited before', eng, st, inst)
            return
        if c not in (VISIT, UP):
            self.v('action', 'unknown walk action %d' % c, eng, st, inst)
            return
        if tag in CONTAINER and ps.get('seen'):
            pass        # visiting again is only slower, the depth limit bounds it
        # the depth limit
        if not L.prove(L.add(L.const(self.key['MAX_DEPTH'] - 1), L.u(('a', 2), 32), -1)):
            self.v('depth', 'accepted at any depth', eng, st, inst)
        if p == 1:
            self.accept1(eng, st, inst, L)
        elif p == 3 and tag in ('SET_VALUE', 'MAP_VALUE_VALUE'):
            self.accept3(eng, st, inst, L)

    def accept1(self, eng, st, inst, L):
        tag = self.tag
        if tag is None or tag == 'unknown' or (tag not in KIND and tag not in INLINE):
            self.v('unknown-tag', 'a value of undefined type is accepted', eng, st, inst)
            return
        L.facts()
        data = {self.sym('v.data', 32): 1}
        if tag in KIND:
            k = KIND[tag]
            if not L.prove(L.add(L.add({self.sym('n_' + k, 32): 1}, L.const(1), -1), data, -1)):
                self.v('reference', 'accepted without checking that its reference is below n_%s' % k, eng, st, inst)
            off = {self.sym('%s_offsets_64[v.data]' % k, 64): 1}
            n = {self.sym('heap[%s]:i32' % show(off), 32): 1}
            if tag in VEC:
                need, what = L.add(L.const(4), n, VEC[tag]), '4 + %d * item count' % VEC[tag]
            elif tag in ('UNICODE_', 'STRING_'):
                w = 4 if tag == 'UNICODE_' else 1
                need, what = L.add(L.const(4 + w), n, w), '4 + %d * (length + 1)' % w
            elif tag == 'BITVECTOR':
                need, what = n, '4 + one byte per 8 bits'
            else:
                need = L.const({'SET_VALUE': 24, 'MAP_VALUE_VALUE': 32}[tag])
                what = 'its header'
            if tag == 'BITVECTOR':
                # bytes * 8 >= bits
                good = L.prove(L.add(L.add(L.add({self.sym('heap_len', 64): 8}, off, -8), L.const(-32)), n, -1), 5)
            else:
                good = self.extent_(L, off, need)
            if not good:
                self.v('extent', 'accepted without checking that %s (%s) lies inside the heap' % (what, show(need)), eng, st, inst)
            if tag in ('UNICODE_', 'STRING_') and not self.terminated(eng, st, L, off, n, w):
                self.v('terminator', 'accepted without checking the terminating zero', eng, st, inst)
            if tag in ('SET_VALUE', 'MAP_VALUE_VALUE'):
                u32, val, hsh = self.key['VECTOR_U32'], self.key['VECTOR_VALUE'], self.key['VECTOR_VALUE_HASHABLE']
                for name, o, ok in (('hash', 8, (u32,)), ('key', 16, (hsh,)), ('value', 24, (val, hsh))):
                    if name == 'value' and tag == 'SET_VALUE':
                        continue
                    t = self.sym('heap[%s]:i32' % show(L.add(off, L.const(o))), 32)
                    lo, hi = eng.urange(st, t, 32)
                    ne = st.facts[t][4] if t in st.facts else ()
                    if hi - lo > 64 or not all(x in ok or x in ne for x in range(lo, hi + 1)):
                        self.v('header-%s' % name, 'accepted without checking the type of the %s vector' % name, eng, st, inst)
        elif tag == 'BITVECTOR_PACKED':
            # the number of bits sits in the low five bits of the data
            if not self.packed(eng, st):
                self.v('packed', 'accepted without checking that the bits fit into the value', eng, st, inst)
        elif tag in ('BOOLEAN', 'NULL', 'VECTOR_EMPTY', 'EMPTY_SLOT'):
            # one representation per value: hashes and comparisons look at the data
            most = 1 if tag == 'BOOLEAN' else 0
            if eng.urange(st, self.sym('v.data', 32), 32)[1] > most:
                self.v('inline-data', 'accepted although its data may be more than %d' % most, eng, st, inst)

    def packed(self, eng, st):
        d = ('a', 'v.data')
        for t, f in st.facts.items():
            if min(f[1], f[3]) <= 27 and engine.contains(t, lambda x: x[0] == 'a' and str(x[1]).startswith('v.data')):
                return True
        return False

    def extent_(self, L, off, need):
        goal = L.add(L.add({self.sym('heap_len', 64): 1}, need, -1), off, -1)
        return L.prove(goal, 5)

    def terminated(self, eng, st, L, off, n, w):
        """a character at or behind the length was compared with zero"""
        for t, e in self.names.items():
            if not str(t[1]).endswith(':i%d' % (8 * w)):
                continue
            if eng.urange(st, t, 8 * w)[1] != 0 and not (eng.const_of(st, t, 8 * w) == 0):
                continue
            # address - (off + 4 + w*n) >= 0
            d = L.add(L.add(L.add(e, off, -1), L.const(4), -1), n, -w)
            if L.prove(d, 4):
                return True
        return False

    def accept3(self, eng, st, inst, L):
        tag = self.tag
        got = None
        for x in st.ps:
            if x[0] == 'pointless_hash_table_validate' and x[1]:
                got = x[2]
        if got is None:
            self.v('hash-table', 'accepted without its hash table having been validated', eng, st, inst)
            return
        k = KIND[tag]
        off = show({self.sym('%s_offsets_64[v.data]' % k, 64): 1})

        def hd(o):
            return ('a', 'heap[%s]:i32' % ('%d + %s' % (o, off) if False else show({('a', '%s_offsets_64[v.data]' % k): 1, None: o} if o else
                                                                                {('a', '%s_offsets_64[v.data]' % k): 1})))

        def count(o):
            return ('a', 'heap[%s]:i32' % show({('a', 'vector_offsets_64[%s]' % hd(o)[1]): 1}))

        def base(o):
            return {('a', 'heap_ptr'): 1, ('a', 'vector_offsets_64[%s]' % hd(o)[1]): 1, None: 4}
        vecs = [('hash', 12), ('key', 20)] + ([('value', 28)] if tag == 'MAP_VALUE_VALUE' else [])
        if len(got) < 6:
            return
        if L.u(got[1], 32) != L.u(hd(0), 32):
            self.v('hash-items', 'the hash table is validated against something other than the item count of the header', eng, st, inst)
        for nm, o in vecs:
            e = L.add(L.u(count(o), 32), L.u(got[2], 32), -1)
            if not (L.prove(e) and L.prove({t: -c for t, c in e.items()})):
                self.v('hash-count-%s' % nm, 'the number of %s slots is not checked against the number of buckets' % nm, eng, st, inst)
        for a, (nm, o) in zip(got[3:6], vecs):
            if L.u(a, 64) != base(o):
                self.v('hash-base-%s' % nm, 'the hash table is validated with another vector than its %s vector' % nm, eng, st, inst)
        if tag == 'SET_VALUE' and got[5] != K0:
            self.v('hash-base-value', 'a set is validated with a value vector', eng, st, inst)


def run(rep, tier):
    rep.level = 'other'
    rep.rule = ('for every type tag and pass, each read of the offset tables and the heap and each return that accepts a value is reached only with facts on the path that entail the '
                'format obligation (reference below count, extent inside the heap without wrap-around, terminator, header types, bit count, depth, visited and cycle bitmaps); the header, '
                'entry points, walk, passes, hash-table loops and cycle-search callbacks meet theirs')
    rep.assumptions = ['the mapped file does not change or shrink while it is open', 'vector, set and map counts add up to less than 2^32',
                       'reading through a pointer inside the heap is possible at any alignment']
    prog = Inl(ndebug=True, passes='function(sroa,loop(loop-unroll-full),sroa)')
    mac = build.macros()
    tags = {n[len('POINTLESS_'):]: v for n, v in mac.items() if n.startswith('POINTLESS_')}
    key = {'MAX_DEPTH': tags['MAX_DEPTH'], 'VISIT_CHILDREN': tags['WALK_VISIT_CHILDREN'], 'MOVE_UP': tags['WALK_MOVE_UP'], 'STOP': tags['WALK_STOP'], 'error_off': [o // 8 for o, n, _, sz in prog.mod.fieldnames['pointless_validate_state_t'] if n == 'error'][0],
           'FF_VERSION_OFFSET_64_NEWHASH': tags['FF_VERSION_OFFSET_64_NEWHASH']}
    for n in list(KIND) + list(INLINE):
        if n not in tags:
            raise AnalysisBroken('type tag %s not defined' % n)
        key[n] = tags[n]
    cbs = set()
    val = prog.mod.funcs['pointless_validate']
    for i in val.insts():
        if i.op == 'call' and i.cname() == 'pointless_walk':
            for o in i.ops:
                if o.kind == 'func':
                    cbs.add(o.name)
    rep.count('validator callbacks', len(cbs))
    if len(cbs) != 1:
        raise AnalysisBroken('validator callback not found: %s' % sorted(cbs))
    fn = prog.mod.funcs[cbs.pop()]
    todo = [(n, tags[n]) for n in list(KIND) + list(INLINE)]
    used = {v for _, v in todo}
    todo += [('unknown', x) for x in (set(range(0, 36)) - used)] + [('unknown', 1 << 20), ('unknown', 0xffffffff)]
    for n, v in todo:
        for p in (1, 2, 3):
            if p > 1 and (n not in CONTAINER):
                continue
            c = Pass(prog, rep, fn, n, v, p, key)
            e = Engine(prog.mod, fn, c, None, kmax=40, maxsteps=20000)
            e.maxdepth = 16
            e.run()
            if e.truncated:
                raise AnalysisBroken('validator not fully explored for %s' % n)
            rep.ok(c.nret + c.nload)
            rep.count('type tag and pass combinations')
            rep.count('reads and returns decided', c.nret + c.nload)
    import rules.a04b as b
    Part = b.mk(Reader)
    cont = [(n, tags[n]) for n in list(KIND) + list(INLINE)]
    hdr = prog.mod.size_of('%pointless_header_t') or 0
    for what, f in (('file header', lambda: b.init(Part, prog, rep, key, hdr)), ('entry points', lambda: b.opens(Part, prog, rep, key)),
                    ('unvalidated opens', lambda: b.skips(Part, prog, rep, key)),
                    ('validation passes', lambda: b.validate(Part, prog, rep, key)),
                    ('walk', lambda: b.walk(Part, prog, rep, key, cont, CONTAINER, KIND)), ('hash table', lambda: b.table(Part, prog, rep, key)),
                    ('cycle marker', lambda: b.cycles(Part, prog, rep, key, CONTAINER, VEC, INLINE, KIND)),
                    ('bitmaps', lambda: b.bitmaps(Part, prog, rep, key))):
        k = f()
        rep.ok(k)
        rep.count('sites decided: ' + what, k)
        rep.floor('sites decided: ' + what, 1)
    rep.floor('type tag and pass combinations', 40)
    rep.floor('reads and returns decided', 100)
    rep.floor('cycle marker callbacks', 6)
