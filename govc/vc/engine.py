"""Forward verification-condition generation over go/ssa.

Each ghost function of /verif/contracts is executed symbolically; code of /repo
that has no contract is inlined, code with a contract is replaced by it, loops
are cut at their header by an inductive invariant.  Every path ends in proof
obligations that are handed to z3 (and, when z3 cannot decide, to cvc5).
"""
import collections
import itertools
import re
import sys
import time

import z3

from core import *

sys.setrecursionlimit(20000)
GHOST = 'github.com/DataDog/orchestrion/internal/zzghost'


class Frame:
    uid = 0

    def __init__(self, name, f, params, free, ret):
        self.name, self.f = name, f
        self.env = {}
        self.params, self.free = params, free
        self.block, self.idx, self.prev = 0, 0, None
        self.defers = []
        self.ret = ret            # None, ('reg', name) or callable(st, value)
        self.loops = {}           # header -> 'final' | 'discover'
        self.visits = {}
        Frame.uid += 1
        self.uid = Frame.uid

    def copy(self):
        g = Frame.__new__(Frame)
        g.name, g.f = self.name, self.f
        g.env = dict(self.env)
        g.params, g.free = self.params, self.free
        g.block, g.idx, g.prev = self.block, self.idx, self.prev
        g.defers = list(self.defers)
        g.ret = self.ret
        g.loops = dict(self.loops)
        g.visits = dict(self.visits)
        g.uid = self.uid
        return g


class State:
    def __init__(self):
        self.frames = []
        self.pc = []          # list of (kind, term), kind in 'b' (branch) / 'f' (fact)
        self.mem = {}
        self.ghost = {'invs': (), 'nopanic': False, 'maypanic': False}
        self.trace = []
        self.wlog = []
        self.bounded = False

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.wlog = list(self.wlog)
        s.bounded = self.bounded
        return s

    def assume(self, t, kind='f'):
        if z3.is_true(t):
            return
        self.pc.append((kind, t))

    def terms(self, ranges=False):
        return [t for k, t in self.pc if ranges or k != 'q']


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Push:
    """A model asks the engine to run a closure and continue with its result."""

    def __init__(self, clo, args, cont=None):
        self.clo, self.args, self.cont = clo, args, cont


from engine_exc import Dead  # noqa: E402


def Cell_new(c, log):
    return Cell(c.base, c.tid, tuple(log))


class Obl:
    __slots__ = ('label', 'kind', 'fn', 'pos', 'status', 'backend', 'secs', 'model', 'note', 'bounded', 'inputs', 'smt')

    def __init__(self, label, kind, fn, pos):
        self.label, self.kind, self.fn, self.pos = label, kind, fn, pos
        self.status, self.backend, self.secs, self.model, self.note = 'undecided', '', 0.0, None, ''
        self.bounded = False
        self.inputs = None
        self.smt = None


class Engine:
    def __init__(self, dump, mode='prove', timeout=10000, unroll=4, quiet=False):
        self.d = dump
        self.types = dump['types']
        self.funcs = dump['funcs']
        self.methods = dump['methods']
        self.consts = dump['consts']
        self.mode = mode              # 'prove' or 'bounded'
        self.unroll = unroll
        self.timeout = timeout
        self.bystr = {t['s']: i for i, t in enumerate(self.types)}
        self._sorts = {}
        self._box = {}
        self._ufs = {}
        self._ctr = 0
        self.next_ref = ALLOC0
        self.obls = []
        self.assumed = collections.Counter()    # external functions abstracted, by name
        self.inlined = set()
        self.usedcontracts = set()
        self.covers = {}
        self.contracts = {}
        self._loopinfo = {}
        self._constcache = {}
        self._clo = {}
        self._registry = {}
        self.suppress = 0
        self.depth_limit = 60
        self.deadline = None
        self.strcodes = {}
        self.global_facts = []
        self.loops_seen = {}
        self.feas_cache = {}
        self.params_desc = []
        self.nsat = 0
        self.solver_secs = 0.0
        self.ifacepure = []
        self.consts_globals = None
        self.path_count = 0
        self.collect = {}
        self.inv_timeout = 2000
        self.invs_kept = {}
        self.invstats = {}
        import models
        self.models = models.build(self)

    # ------------------------------------------------------------------ types
    def T(self, tid):
        return self.types[tid]

    def kind(self, tid):
        return self.types[tid]['k']

    def tname(self, tid):
        return self.types[tid]['s']

    def sort(self, tid):
        s = self._sorts.get(tid)
        if s is not None:
            return s
        t = self.T(tid)
        k = t['k']
        if k == 'basic':
            info = t['info']
            if info & 1:
                s = z3.BoolSort()
            elif info & 2:
                s = z3.IntSort()
            elif info & 32:
                s = z3.StringSort()
            elif info & 8:
                s = z3.RealSort()
            else:
                s = z3.IntSort()
        elif k in ('ptr', 'map', 'chan', 'func'):
            s = z3.IntSort()
        elif k == 'slice':
            s = SliceS
        elif k == 'iface':
            s = IfaceS
        elif k == 'struct':
            dt = z3.Datatype(f'S{tid}')
            fs = []
            for i, (n, ft, _) in enumerate(t['fields']):
                fs.append((f'S{tid}_f{i}', self.sort(ft)))
            if fs:
                dt.declare(f'mkS{tid}', *fs)
            else:
                dt.declare(f'mkS{tid}')
            s = dt.create()
        elif k == 'array':
            s = z3.ArraySort(z3.IntSort(), self.sort(t['elem']))
        else:
            s = z3.IntSort()
        self._sorts[tid] = s
        return s

    def fresh_name(self, p):
        self._ctr += 1
        return f'{p}!{self._ctr}@{self.next_ref}'

    def fresh(self, st, tid, hint='x', inp=False):
        """A fresh symbolic value of Go type tid, with its type invariants."""
        name = 'in!' + self.fresh_name(hint) if inp else self.fresh_name(hint)
        c = z3.Const(name, self.sort(tid))
        return self.decode(st, c, tid)

    def intrange(self, tid):
        n = self.T(tid).get('name', '')
        return {'uint8': (0, 255), 'byte': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535),
                'int16': (-32768, 32767), 'uint32': (0, 2**32 - 1), 'int32': (-2**31, 2**31 - 1),
                'rune': (-2**31, 2**31 - 1), 'uint': (0, 2**64 - 1), 'uint64': (0, 2**64 - 1),
                'uintptr': (0, 2**64 - 1), 'int': (-2**63, 2**63 - 1), 'int64': (-2**63, 2**63 - 1)}.get(n)

    def decode(self, st, term, tid):
        t = self.T(tid)
        k = t['k']
        if k == 'slice':
            arr, off, ln = simp(SliceS.arr(term)), simp(SliceS.off(term)), simp(SliceS.len(term))
            if not z3.is_int_value(off) and input_only(term):
                if st is not None:
                    st.assume(off == 0)
                off = z3.IntVal(0)
            if st is not None and not z3.is_int_value(ln):
                st.assume(And(ln >= 0, off >= 0, arr >= 0, z3.Implies(arr == 0, And(ln == 0, off == 0))))
                if is_leafy(arr):
                    st.assume(arr <= refbound(arr))
            return SliceV(arr, off, ln)
        if k == 'struct':
            s = self.sort(tid)
            return StructV([self.decode(st, simp(s.accessor(0, i)(term)), ft) for i, (n, ft, _) in enumerate(t['fields'])])
        if k == 'array':
            return ArrV([self.decode(st, simp(z3.Select(term, i)), t['elem']) for i in range(t['len'])])
        if k in ('ptr', 'map', 'chan', 'func'):
            v = intval(term)
            if v is not None and v in self._registry:
                return self._registry[v]
            if st is not None and v is None:
                st.assume(term >= 0, 'r')
                if is_leafy(term):
                    st.assume(term <= refbound(term), 'r')
            return term
        if k == 'basic' and t['info'] & 2 and st is not None and not z3.is_int_value(term):
            r = self.intrange(tid)
            if r:
                st.assume(And(term >= r[0], term <= r[1]), 'r')
        return term

    def encode(self, v, tid):
        t = self.T(tid)
        k = t['k']
        if k == 'slice':
            return SliceS.mk(v.arr, v.off, v.ln)
        if k == 'struct':
            s = self.sort(tid)
            args = [self.encode(x, ft) for x, (n, ft, _) in zip(v.vals, t['fields'])]
            return s.constructor(0)(*args) if args else s.constructor(0)()
        if k == 'array':
            a = z3.K(z3.IntSort(), self.encode(self.zero(t['elem']), t['elem']))
            for i, x in enumerate(v.vals):
                a = z3.Store(a, i, self.encode(x, t['elem']))
            return a
        if k == 'iface' and not is_z3(v):
            raise Undecided('iface encoding of ' + repr(v))
        if isinstance(v, Clo):
            if not v.binds:
                n = self._clo.get(v.fn)
                if n is None:
                    n = self._clo[v.fn] = 500_000_000 + len(self._clo)
                self._registry[n] = v
                return z3.IntVal(n)
            n = 600_000_000 + v.uid
            self._registry[n] = v
            return z3.IntVal(n)
        if isinstance(v, (PField, PElem, PGlobal, PArrElem)):
            n = self._iptr(v)
            self._registry[n] = v
            return z3.IntVal(n)
        if isinstance(v, (IterV, ArrV, StructV, SliceV, Tup)):
            raise Undecided(f'cannot encode {v!r} as {t["s"]}')
        return v

    def _iptr(self, v):
        def key(p):
            if isinstance(p, PField):
                return ('f', key(p.base), p.tid, p.f)
            if isinstance(p, PElem):
                return ('e', str(p.arr), str(p.idx))
            if isinstance(p, PArrElem):
                return ('a', key(p.base), str(p.idx))
            if isinstance(p, PGlobal):
                return ('g', p.name)
            return str(p)
        k = key(v)
        n = self._clo.get(('iptr', k))
        if n is None:
            n = self._clo[('iptr', k)] = 700_000_000 + len(self._clo)
        return n

    def zero(self, tid):
        t = self.T(tid)
        k = t['k']
        if k == 'basic':
            if t['info'] & 1:
                return z3.BoolVal(False)
            if t['info'] & 32:
                return z3.StringVal('')
            if t['info'] & 8:
                return z3.RealVal(0)
            return z3.IntVal(0)
        if k == 'slice':
            return SliceV(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        if k == 'iface':
            return nilI
        if k == 'struct':
            return StructV([self.zero(ft) for n, ft, _ in t['fields']])
        if k == 'array':
            if t['len'] > 4096:
                raise Undecided('large array')
            return ArrV([self.zero(t['elem']) for _ in range(t['len'])])
        if k == 'tuple':
            return Tup([self.zero(x) for x in t['elems']])
        return z3.IntVal(0)

    def const(self, tid, v):
        t = self.T(tid)
        if v is None:
            return self.zero(tid)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if 's' in v:
            return self.strval(bytes(v['s']))
        if 'i' in v:
            if t['k'] == 'basic' and t['info'] & 8:
                return z3.RealVal(v['i'])
            return z3.IntVal(v['i'])
        return z3.RealVal(v['f'])

    @staticmethod
    def strval(b):
        if isinstance(b, str):
            b = b.encode('utf-8')
        return z3.StringVal(''.join(chr(c) if 32 <= c < 127 and c != 0x5c else '\\u{%x}' % c for c in b))

    def uf(self, name, *sorts):
        key = (name,) + tuple(s.name() if s.kind() != z3.Z3_ARRAY_SORT else str(s) for s in sorts)
        f = self._ufs.get(key)
        if f is None:
            f = self._ufs[key] = z3.Function(name if not any(k[0] == name for k in self._ufs) else f'{name}#{len(self._ufs)}', *sorts)
        return f

    # box / unbox of interface values
    def tid_canon(self, tid):
        return tid

    def box(self, st, v, tid):
        if tid not in self._box:
            s = self.sort(tid)
            self._box[tid] = (z3.Function(f'box{tid}', s, IfaceS), z3.Function(f'unbox{tid}', IfaceS, s))
        b, u = self._box[tid]
        e = simp(self.encode(v, tid))
        t = b(e)
        key = ('box', t.get_id())
        if st is not None:
            st.assume(And(dyntype(t) == tid, u(t) == e, t != nilI))
        self._clo[key] = t
        return t

    def unbox(self, st, x, tid):
        if tid not in self._box:
            self.box(None, self.zero(tid), tid) if self.kind(tid) != 'func' else None
        b, u = self._box.get(tid) or (None, None)
        if u is None:
            s = self.sort(tid)
            self._box[tid] = (z3.Function(f'box{tid}', s, IfaceS), z3.Function(f'unbox{tid}', IfaceS, s))
            b, u = self._box[tid]
        if z3.is_app(x) and x.decl().eq(b):
            return self.decode(st, x.arg(0), tid)
        return self.decode(st, u(x), tid)

    def known_dyn(self, x):
        """Concrete dynamic type id of interface term x, if syntactically known."""
        if z3.is_app(x) and x.decl().name().startswith('box') and x.num_args() == 1:
            try:
                return int(x.decl().name()[3:])
            except ValueError:
                return None
        return None

    # equality and merging
    def eq(self, a, b, tid):
        t = self.T(tid)
        k = t['k']
        if k == 'struct':
            return And(*[self.eq(x, y, ft) for x, y, (n, ft, _) in zip(a.vals, b.vals, t['fields'])])
        if k == 'array':
            return And(*[self.eq(x, y, t['elem']) for x, y in zip(a.vals, b.vals)])
        if k == 'slice':
            # only comparisons with nil are legal in Go
            if intval(b.arr) == 0:
                return a.arr == 0
            if intval(a.arr) == 0:
                return b.arr == 0
            return And(a.arr == b.arr, a.off == b.off, a.ln == b.ln)
        if k in ('ptr', 'map', 'chan', 'func'):
            ea, eb = self.encode(a, tid), self.encode(b, tid)
            va, vb = intval(ea), intval(eb)
            if va is not None and vb is not None:
                return T_(va == vb)
            return ea == eb
        return simp(a == b)

    def merge(self, c, a, b):
        """ite(c, a, b) on structured values."""
        if a is b:
            return a
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(*[self.merge(c, x, y) for x, y in ((a.arr, b.arr), (a.off, b.off), (a.ln, b.ln))])
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV([self.merge(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return ArrV([self.merge(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup([self.merge(c, x, y) for x, y in zip(a.vals, b.vals)])
        if is_z3(a) and is_z3(b):
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn and a.binds == b.binds:
            return a
        raise Undecided(f'cannot merge {a!r} / {b!r}')

    # ----------------------------------------------------------------- memory
    def cell(self, st, key, tid):
        c = st.mem.get(key)
        if c is None:
            if key[0] == 'e':
                s = z3.ArraySort(z3.IntSort(), self.sort(tid))
            elif key[0] == 'md':
                s = z3.ArraySort(self.sort(tid), z3.BoolSort())
            elif key[0] == 'mv':
                s = z3.ArraySort(self.sort(tid[0]), self.sort(tid[1]))
            elif key[0] == 'ml':
                s = z3.IntSort()
            else:
                s = self.sort(tid)
            nm = 'in!m:' + ':'.join(str(x) for x in key)
            c = Cell(z3.Const(nm, z3.ArraySort(z3.IntSort(), s)), tid)
            st.mem[key] = c
        return c

    def distinct(self, a, b):
        va, vb = intval(a), intval(b)
        if va is not None and vb is not None:
            return va != vb
        if va is not None and va > refbound(b):
            return True
        if vb is not None and vb > refbound(a):
            return True
        return False

    def same(self, a, b):
        va, vb = intval(a), intval(b)
        if va is not None and vb is not None:
            return va == vb
        return is_z3(a) and is_z3(b) and a.eq(b)

    def cread(self, st, c, ref, dec):
        """Reads reference ref of cell c; dec turns a raw base term into a value."""
        pend = []
        val = None
        rb = None
        for r, v in reversed(c.log):
            if isinstance(r, tuple):    # havoc of every reference above a bound
                _, bound = r
                if bound < 0:
                    val = dec(simp(z3.Select(v, ref)))
                    break
                if rb is None:
                    rb = refbound(ref)
                if rb <= bound:
                    continue
                vr = intval(ref)
                if vr is not None:
                    if vr > bound:
                        val = dec(simp(z3.Select(v, ref)))
                        break
                    continue
                pend.append((ref > bound, dec(simp(z3.Select(v, ref)))))
                continue
            if self.same(r, ref):
                val = v
                break
            if self.distinct(r, ref):
                continue
            pend.append((r == ref, v))
        if val is None:
            val = dec(simp(z3.Select(c.base, ref)))
        for cond, v in reversed(pend):
            val = self.merge(cond, v, val)
        return val

    def ghost_cell(self, a, what, ty):
        """Cell and reference of the hidden state of a library object (a mutex-like
        value inside a struct): keyed by the field, at the enclosing object."""
        if isinstance(a, PField) and is_z3(a.base):
            return ('f', f'${what}:{self.tname(a.tid)}', a.f), a.base
        if is_z3(a):
            return ('f', f'${what}', 0), a
        return ('f', f'${what}@{a!r}', 0), z3.IntVal(self._iptr(a))

    def anytid(self):
        return self.bystr.get('any', self.bystr.get('interface{}'))

    def ghost_read(self, st, a, what, ty):
        key, ref = self.ghost_cell(a, what, ty)
        tid = self.bystr[ty]
        c = self.cell(st, key, tid)
        v = intval(ref)
        if v is not None and v >= ALLOC0 and v < 700_000_000 and not any(isinstance(r, tuple) or self.same(r, ref) for r, _ in c.log):
            return self.zero(tid)
        return self.cread(st, c, ref, lambda t: t)

    def ghost_write(self, st, a, what, ty, v):
        key, ref = self.ghost_cell(a, what, ty)
        self.cwrite(st, key, self.cell(st, key, self.bystr[ty]), ref, v)

    def cwrite(self, st, key, c, ref, v):
        st.wlog.append((key, ref))
        log = list(c.log)
        if log and not isinstance(log[-1][0], tuple) and self.same(log[-1][0], ref):
            log[-1] = (ref, v)
        else:
            log.append((ref, v))
        st.mem[key] = Cell(c.base, c.tid, tuple(log))

    # elements of backing arrays: the value of a cell is a z3 array Int -> Enc(elem)
    def arr_get(self, st, arr, etid):
        key = ('e', self.tname(etid))
        return self.cread(st, self.cell(st, key, etid), arr, lambda t: t)

    def arr_set(self, st, arr, etid, content):
        key = ('e', self.tname(etid))
        self.cwrite(st, key, self.cell(st, key, etid), arr, content)

    def elem(self, st, s, i, etid):
        return self.decode(st, simp(z3.Select(self.arr_get(st, s.arr, etid), simp(s.off + i))), etid)

    def new_ref(self):
        self.next_ref += 1
        return z3.IntVal(self.next_ref)

    def new_array(self, st, etid, content=None):
        ref = self.new_ref()
        if content is None:
            content = z3.K(z3.IntSort(), self.encode(self.zero(etid), etid))
        self.arr_set(st, ref, etid, content)
        return ref

    def slice_of(self, st, vals, etid):
        """A fresh slice holding the given values."""
        content = z3.K(z3.IntSort(), self.encode(self.zero(etid), etid))
        for i, v in enumerate(vals):
            content = z3.Store(content, i, self.encode(v, etid))
        ref = self.new_array(st, etid, content)
        return SliceV(ref, z3.IntVal(0), z3.IntVal(len(vals)))

    # maps
    def map_cells(self, st, mt):
        t = self.T(mt)
        n = t['s'] if t['k'] == 'map' else str(mt)
        n = f"{self.tname(t['key'])}>{self.tname(t['elem'])}"
        kd, kv, kl = ('md', n), ('mv', n), ('ml', n)
        return (kd, self.cell(st, kd, t['key'])), (kv, self.cell(st, kv, (t['key'], t['elem']))), (kl, self.cell(st, kl, None))

    def map_dom(self, st, m, mt):
        (kd, cd), _, _ = self.map_cells(st, mt)
        return self.cread(st, cd, m, lambda t: t)

    def map_vals(self, st, m, mt):
        _, (kv, cv), _ = self.map_cells(st, mt)
        return self.cread(st, cv, m, lambda t: t)

    def map_len(self, st, m, mt):
        if intval(m) == 0:
            return z3.IntVal(0)
        _, _, (kl, cl) = self.map_cells(st, mt)
        v = self.cread(st, cl, m, lambda t: t)
        if not z3.is_int_value(v):
            st.assume(v >= 0)
            # an empty map has no key, a non-empty one has some
            t = self.T(mt)
            k = z3.Const('k!ml', self.sort(t['key']))
            st.assume(z3.Implies(v == 0, self.map_dom(st, m, mt) == z3.K(self.sort(t['key']), z3.BoolVal(False))))
        return v

    def map_has(self, st, m, k, mt):
        t = self.T(mt)
        h = z3.Select(self.map_dom(st, m, mt), self.encode(k, t['key']))
        if intval(m) is None:
            h = And(m != 0, h)
        elif intval(m) == 0:
            h = T_(False)
        return simp(h)

    def map_get(self, st, m, k, mt):
        t = self.T(mt)
        return self.decode(st, simp(z3.Select(self.map_vals(st, m, mt), self.encode(k, t['key']))), t['elem'])

    def map_store(self, st, m, k, v, mt):
        t = self.T(mt)
        (kd, cd), (kv, cv), (kl, cl) = self.map_cells(st, mt)
        ek = self.encode(k, t['key'])
        dom = self.cread(st, cd, m, lambda x: x)
        vals = self.cread(st, cv, m, lambda x: x)
        ln = self.map_len(st, m, mt)
        had = z3.Select(dom, ek)
        self.cwrite(st, kd, cd, m, z3.Store(dom, ek, z3.BoolVal(True)))
        self.cwrite(st, kv, cv, m, z3.Store(vals, ek, self.encode(v, t['elem'])))
        cl = st.mem[kl]
        self.cwrite(st, kl, cl, m, simp(z3.If(had, ln, ln + 1)))

    def map_delete(self, st, m, k, mt):
        t = self.T(mt)
        (kd, cd), (kv, cv), (kl, cl) = self.map_cells(st, mt)
        ek = self.encode(k, t['key'])
        dom = self.cread(st, cd, m, lambda x: x)
        ln = self.map_len(st, m, mt)
        had = z3.Select(dom, ek)
        self.cwrite(st, kd, cd, m, z3.Store(dom, ek, z3.BoolVal(False)))
        self.cwrite(st, kl, st.mem[kl], m, simp(z3.If(had, ln - 1, ln)))

    def map_new(self, st, mt, dom=None, vals=None, ln=None):
        t = self.T(mt)
        ref = self.new_ref()
        (kd, cd), (kv, cv), (kl, cl) = self.map_cells(st, mt)
        ks = self.sort(t['key'])
        self.cwrite(st, kd, cd, ref, dom if dom is not None else z3.K(ks, z3.BoolVal(False)))
        self.cwrite(st, kv, cv, ref, vals if vals is not None else z3.K(ks, self.encode(self.zero(t['elem']), t['elem'])))
        self.cwrite(st, kl, cl, ref, ln if ln is not None else z3.IntVal(0))
        return ref

    def map_snapshot(self, st, m, mt):
        return self.map_new(st, mt, self.map_dom(st, m, mt), self.map_vals(st, m, mt), self.map_len(st, m, mt))

    # loads and stores
    def load(self, st, p, tid):
        """Value of Go type tid that pointer p designates."""
        k = self.kind(tid)
        if isinstance(p, PField):
            base = p.base
            if is_z3(base):
                key = ('f', self.tname(p.tid), p.f)
                ft = self.T(p.tid)['fields'][p.f][1]
                return self.cread(st, self.cell(st, key, ft), base, lambda t: self.decode(st, t, ft))
            return self.load(st, base, p.tid).vals[p.f]
        if isinstance(p, PElem):
            return self.decode(st, simp(z3.Select(self.arr_get(st, p.arr, p.tid), p.idx)), p.tid)
        if isinstance(p, PArrElem):
            a = self.load(st, p.base, p.tid)
            i = intval(p.idx)
            if i is None:
                raise Undecided('symbolic index into array value')
            return a.vals[i]
        if isinstance(p, PGlobal):
            key = ('g', p.name)
            if key not in st.mem:
                st.mem[key] = self.decode(st, z3.Const('in!g:' + p.name, self.sort(tid)), tid)
                if 'orchestrion' not in p.name and self.tname(tid) == 'error':
                    st.assume(st.mem[key] != nilI)   # sentinel errors of libraries
            v = st.mem[key]
            return v
        if k == 'struct':
            return StructV([self.load(st, PField(p, tid, i), ft) for i, (n, ft, _) in enumerate(self.T(tid)['fields'])])
        if k == 'array':
            t = self.T(tid)
            content = self.arr_get(st, p, t['elem'])
            return ArrV([self.decode(st, simp(z3.Select(content, i)), t['elem']) for i in range(t['len'])])
        key = ('o', self.tname(tid))
        return self.cread(st, self.cell(st, key, tid), p, lambda t: self.decode(st, t, tid))

    def store(self, st, p, v, tid):
        k = self.kind(tid)
        if isinstance(p, PField):
            base = p.base
            if is_z3(base):
                key = ('f', self.tname(p.tid), p.f)
                ft = self.T(p.tid)['fields'][p.f][1]
                self.cwrite(st, key, self.cell(st, key, ft), base, v)
                return
            s = self.load(st, base, p.tid)
            nv = list(s.vals)
            nv[p.f] = v
            self.store(st, base, StructV(nv), p.tid)
            return
        if isinstance(p, PElem):
            content = self.arr_get(st, p.arr, p.tid)
            self.arr_set(st, p.arr, p.tid, z3.Store(content, p.idx, self.encode(v, p.tid)))
            return
        if isinstance(p, PArrElem):
            a = self.load(st, p.base, p.tid)
            i = intval(p.idx)
            if i is None:
                raise Undecided('symbolic index into array value')
            nv = list(a.vals)
            nv[i] = v
            self.store(st, p.base, ArrV(nv), p.tid)
            return
        if isinstance(p, PGlobal):
            st.mem[('g', p.name)] = v
            st.wlog.append((('g', p.name), tid))
            return
        if k == 'struct':
            for i, (n, ft, _) in enumerate(self.T(tid)['fields']):
                self.store(st, PField(p, tid, i), v.vals[i], ft)
            return
        if k == 'array':
            t = self.T(tid)
            content = z3.K(z3.IntSort(), self.encode(self.zero(t['elem']), t['elem']))
            for i, x in enumerate(v.vals):
                content = z3.Store(content, i, self.encode(x, t['elem']))
            self.arr_set(st, p, t['elem'], content)
            return
        key = ('o', self.tname(tid))
        self.cwrite(st, key, self.cell(st, key, tid), p, v)

    # -------------------------------------------------------------- solving
    init_terms = ()

    def relevant(self, terms):
        """Facts about package variables are added only where they matter."""
        if not self.init_terms:
            return terms
        names = set()
        for t in terms:
            names |= self.consts_in(t)
        left = [(t, self.consts_in(t)) for t in self.init_terms]
        out = []
        changed = True
        while changed and left:
            changed = False
            for x in list(left):
                if x[1] & names:
                    out.append(x[0])
                    names |= x[1]
                    left.remove(x)
                    changed = True
        return out + terms

    def consts_in(self, t):
        k = t.get_id()
        r = self._constcache.get(k)
        if r is None:
            r = self._constcache[k] = (t, {n for n in free_consts(t) if n != 'nil!iface'})
        return r[1]

    def check(self, terms, timeout=None):
        t0 = time.time()
        timeout = timeout or self.timeout
        terms = self.relevant(list(terms))
        if any(has_quant(t) for t in terms):
            # instantiation by pattern first: it either finds the proof or gives up quickly
            s = z3.Solver()
            s.set('timeout', min(timeout, 2500))
            s.set('smt.mbqi', False)
            for t in terms:
                s.add(t)
            r = s.check()
            if r == z3.unsat:
                self.solver_secs += time.time() - t0
                self.nsat += 1
                return r, s
        s = z3.Solver()
        s.set('timeout', timeout)
        for t in terms:
            s.add(t)
        r = s.check()
        self.solver_secs += time.time() - t0
        self.nsat += 1
        return r, s

    def feasible(self, st, extra=None):
        terms = st.terms()
        if extra is not None:
            if z3.is_true(extra):
                return True
            if z3.is_false(extra):
                return False
            terms = terms + [extra]
        k = tuple(t.get_id() for t in terms)
        r = self.feas_cache.get(k)
        if r is None:
            # ground part first: quantifiers make "sat" answers slow
            ground = [t for t in terms if not has_quant(t)]
            res, sv = self.check(ground, 150)
            if res == z3.unknown:
                res = self.cvc5_quick(sv)
            if res != z3.unsat and len(ground) != len(terms):
                res, _ = self.check(terms, 400)
            r = (res != z3.unsat, terms)
            self.feas_cache[k] = r
        return r[0]

    def cvc5_quick(self, s, ms=400):
        """cvc5 on a ground path condition z3 gives up on (mostly strings)."""
        import subprocess
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        t0 = time.time()
        try:
            p = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={ms}', '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 2)
            o = p.stdout.strip().splitlines()
        except Exception:
            o = []
        self.solver_secs += time.time() - t0
        if o and o[0] == 'unsat':
            return z3.unsat
        if o and o[0] == 'sat':
            return z3.sat
        return z3.unknown

    def prove(self, st, goal, label, kind, pos=''):
        """Emit the obligation pc => goal."""
        if self.suppress:
            return
        fr = st.frames[-1] if st.frames else None
        o = Obl(label, kind, fr.name if fr else '', pos)
        o.bounded = st.bounded or self.mode == 'bounded'
        goal = simp(goal)
        t0 = time.time()
        if z3.is_true(goal):
            o.status, o.backend = 'discharged', 'simplifier'
        else:
            terms = st.terms() + [z3.Not(goal)]
            r, s = self.check(terms, min(self.timeout, 4000))
            o.backend = 'z3'
            if r != z3.unsat and any(k == 'q' for k, _ in st.pc):
                r1, s1 = r, s
                terms = st.terms(True) + [z3.Not(goal)]
                r, s = self.check(terms, min(self.timeout, 4000))
                if r == z3.unknown and r1 != z3.sat:
                    terms, r, s = st.terms() + [z3.Not(goal)], r1, s1
            if r == z3.unsat:
                o.status = 'discharged'
            elif r == z3.sat:
                o.status = 'refuted'
                o.model = s.model()
            else:
                r2 = self.sliced(terms, goal)
                if r2 != 'unsat':
                    r2 = self.second_opinion(s)
                if r2 == 'unsat':
                    o.status, o.backend = 'discharged', r2 and self.last_backend
                else:
                    o.status = 'undecided'
                    o.note = f'z3: {s.reason_unknown()}'
            if o.status != 'discharged':
                o.inputs = (o.model, st)
                o.smt = s
        o.secs = time.time() - t0
        self.obls.append(o)
        return o

    last_backend = ''

    def sliced(self, terms, goal):
        """The goal from fewer hypotheses: none with quantifiers, then only those
        about the symbols of the goal. Leaving hypotheses out is always sound."""
        ng = terms[-1]
        hyps = self.relevant(list(terms[:-1]))
        ground = [t for t in hyps if not has_quant(t)]
        quant = [t for t in hyps if has_quant(t)]
        if not quant:
            return 'unknown'
        gc = self.consts_in(ng)
        loc = {n for n in gc if not n.startswith('in!m')}
        sets = [ground]
        for names in (loc, gc):
            near = [t for t in quant if self.consts_in(t) & names]
            if len(near) < len(quant):
                sets.append(ground + near)
            tight = [t for t in quant if self.consts_in(t) <= gc]
            if tight and len(tight) < len(quant):
                sets.append([t for t in ground if self.consts_in(t) <= gc] + tight)
        noex = [t for t in quant if not has_exists(t)]
        if noex and len(noex) < len(quant):
            sets.append(ground + noex)
        seen = set()
        for hs in sets:
            k = tuple(t.get_id() for t in hs)
            if k in seen:
                continue
            seen.add(k)
            s = z3.Solver()
            s.set('timeout', 1500)
            s.set('smt.mbqi', False)
            for t in hs:
                s.add(t)
            s.add(ng)
            t0 = time.time()
            r = s.check()
            self.solver_secs += time.time() - t0
            if r == z3.unsat:
                self.last_backend = 'z3'
                return 'unsat'
        return 'unknown'

    def second_opinion(self, s):
        """A portfolio of solvers and strategies, run side by side."""
        import subprocess
        import tempfile
        import os
        t = max(3, self.timeout // 1000)
        txt = s.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f2:
            f2.write(txt)
        cmds = [('z3', ['z3-new', f'-T:{t}', f2.name]),
                ('z3', ['z3-new', f'-T:{t}', 'smt.mbqi=false', f2.name]),
                ('z3', ['z3-new', f'-T:{t}', 'smt.random_seed=7', 'smt.arith.solver=2', f2.name]),
                ('cvc5', ['cvc5', '--strings-exp', f'--tlimit={t*1000}', f.name])]
        weak = None
        if 'str.<' in txt and 'str.++' not in txt and 'str.substr' not in txt:
            # the order of strings as any strict total order: weaker than the theory
            ax = ('(declare-fun zlt (String String) Bool)\n'
                  '(assert (forall ((x String) (y String)) (! (not (and (zlt x y) (or (= x y) (zlt y x)))) :pattern ((zlt x y)))))\n'
                  '(assert (forall ((x String) (y String)) (! (or (= x y) (zlt x y) (zlt y x)) :pattern ((zlt x y)))))\n'
                  '(assert (forall ((x String) (y String) (z String)) (! (=> (and (zlt x y) (zlt y z)) (zlt x z)) :pattern ((zlt x y) (zlt y z)))))\n'
                  '(define-fun zle ((x String) (y String)) Bool (or (= x y) (zlt x y)))\n')
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as weak:
                weak.write(ax + txt.replace('(str.<= ', '(zle ').replace('(str.< ', '(zlt '))
            cmds.append(('z3', ['z3-new', f'-T:{t}', 'smt.mbqi=false', weak.name]))
        procs = []
        ans = 'unknown'
        try:
            for b, c in cmds:
                try:
                    procs.append((b, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            end = time.time() + t + 5
            live = list(procs)
            while live and time.time() < end and ans == 'unknown':
                time.sleep(0.03)
                for bp in list(live):
                    if bp[1].poll() is not None:
                        live.remove(bp)
                        out = bp[1].stdout.read().strip().splitlines()
                        if out and out[0] == 'unsat':
                            self.last_backend = bp[0]
                            ans = 'unsat'
                            break
        finally:
            for b, p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            os.unlink(f.name)
            os.unlink(f2.name)
            if weak is not None:
                os.unlink(weak.name)
        return ans

    # ---------------------------------------------------------- CFG analysis
    def loopinfo(self, name):
        li = self._loopinfo.get(name)
        if li is not None:
            return li
        bs = self.funcs[name]['blocks']
        n = len(bs)
        # dominators
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        rec = self.funcs[name].get('recover')
        order = list(range(n))
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = bs[b]['p']
                if not ps:
                    nd = {b}
                else:
                    nd = set.intersection(*[dom[p] for p in ps]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    changed = True
        loops = {}
        for b in range(n):
            for s in bs[b]['s']:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(bs[x]['p'])
        self._loopinfo[name] = loops
        return loops

    # ------------------------------------------------------------- execution
    def val(self, st, fr, o):
        if o is None:
            return None
        k = o[0]
        if k == 'r':
            try:
                return fr.env[o[1]]
            except KeyError:
                raise Undecided(f'undefined register {o[1]} in {fr.name}')
        if k == 'c':
            return self.const(o[1], o[2])
        if k == 'p':
            return fr.params[o[1]]
        if k == 'v':
            return fr.free[o[1]]
        if k == 'g':
            return PGlobal(o[1], o[2])
        if k == 'f':
            return Clo(o[1])
        if k == 'b':
            return ('builtin', o[1])
        raise Undecided('operand ' + str(o))

    def push(self, st, name, args, free, ret):
        f = self.funcs.get(name)
        if f is None or 'blocks' not in f:
            raise Undecided('no body for ' + name)
        if len(st.frames) > self.depth_limit:
            raise Undecided('call depth')
        n = sum(1 for x in st.frames if x.name == name)
        if n >= (self.unroll + 1 if self.mode == 'bounded' else 3):
            if self.mode == 'bounded':
                raise Dead('recursion bound')
            raise Undecided('recursion without a contract: ' + name)
        st.frames.append(Frame(name, f, list(args), list(free), ret))
        self.inlined.add(name)

    def explore(self, st, stop=None, limit=20000):
        """Runs st to completion (depth-first); yields nothing, calls hooks.
        `stop(st)` may claim a state (return True) before each block."""
        work = [st]
        while work:
            s = work.pop()
            self.path_count += 1
            if self.path_count > limit:
                raise Undecided('path limit')
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time limit')
            try:
                while s.frames:
                    r = self.step(s, stop)
                    if r is not None:
                        work.extend(reversed(r))
                        break
                else:
                    self.on_end(s)
            except Dead:
                continue
            except Fork as f:
                raise

    def on_end(self, st):
        pass

    def step(self, st, stop):
        """Executes one instruction.  Returns None to continue with st, or a list
        of successor states that replace it."""
        fr = st.frames[-1]
        ins = fr.f['blocks'][fr.block]['i']
        if fr.idx == 0 and fr.prev is not None or (fr.idx == 0 and fr.block == 0 and fr.prev is None):
            if ins and ins[0]['op'] == 'phi':
                return self.enter(st, fr, stop)
            li = self.loopinfo(fr.name)
            if fr.block in li and not fr.env.get(('entered', fr.block)):
                return self.enter(st, fr, stop)
            if stop is not None and stop(st, fr):
                return []
        in_ = ins[fr.idx]
        op = in_['op']
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Undecided(f'instruction {op} {in_.get("c","")} in {fr.name}')
        return h(st, fr, in_)

    def goto(self, st, fr, b):
        fr.prev = fr.block
        fr.block = b
        fr.idx = 0
        fr.env.pop(('entered', b), None)

    # phis and loop headers
    def enter(self, st, fr, stop):
        b = fr.block
        blk = fr.f['blocks'][b]
        phis = [i for i in blk['i'] if i['op'] == 'phi']
        if stop is not None and stop(st, fr):
            return []
        if phis:
            pi = blk['p'].index(fr.prev)
            vals = [self.val(st, fr, p['e'][pi]) for p in phis]
            for p, v in zip(phis, vals):
                fr.env[p['n']] = v
        fr.idx = len(phis)
        li = self.loopinfo(fr.name)
        if b not in li:
            return None
        fr.env[('entered', b)] = True
        body = li[b]
        back = fr.prev is not None and fr.prev in body and (fr.loops.get(b) is not None or fr.visits.get(b, 0) > 0)
        if fr.loops.get(b) is None and self.mode == 'prove' and self.loop_needs_cut(fr, b) and self.static_header(st, fr, b):
            fr.visits[b] = fr.visits.get(b, 0) + 1
            return None
        back = back and fr.loops.get(b) is not None or self.mode != 'prove' and back
        if self.mode == 'bounded' or not self.loop_needs_cut(fr, b):
            n = fr.visits.get(b, 0) if back else 0
            fr.visits[b] = n + 1
            lim = self.unroll
            # loops over concrete data unroll as far as they go
            if n > lim:
                if self.mode == 'bounded':
                    # a loop whose continuation is not forced by constants stops here
                    if n > 64 or not (self._concrete_loop(st, fr, phis) or self.static_header(st, fr, b)):
                        raise Dead('unroll bound')
                elif n > 300:
                    raise Undecided('concrete loop too long')
            return None
        if back:
            col = self.collect.get((fr.uid, b))
            if col is not None:
                col.append(st)
            raise Dead('back edge')
        return self.do_loop(st, fr, b, phis, body)

    def static_header(self, st, fr, b):
        """True when the loop condition is already decided by constants, as in a
        range over a list of known length."""
        blk = fr.f['blocks'][b]
        last = blk['i'][-1]
        if last['op'] != 'if' or last['x'][0] != 'r' or fr.visits.get(b, 0) > 40:
            return False
        ints = [p for p in blk['i'] if p['op'] == 'phi' and self.kind(p['t']) == 'basic' and self.T(p['t'])['info'] & 2]
        if not any(intval(fr.env[p['n']]) is not None for p in ints):
            return False
        s = st.fork()
        f = s.frames[-1]
        self.suppress += 1
        try:
            for in_ in blk['i'][f.idx:-1]:
                if in_['op'] not in ('binop', 'unop', 'call', 'field', 'fieldaddr', 'convert', 'changetype', 'extract'):
                    return False
                if in_['op'] == 'call' and in_['call'].get('fn', [None])[0] != 'b':
                    return False
                n = len(s.frames)
                if self.__getattribute__('i_' + in_['op'])(s, f, in_) is not None or len(s.frames) != n:
                    return False
            c = self.val(s, f, last['x'])
        except (Undecided, Dead, Fork):
            return False
        finally:
            self.suppress -= 1
        return z3.is_true(c) or z3.is_false(c)

    def _concrete_loop(self, st, fr, phis):
        return all(intval(fr.env[p['n']]) is not None for p in phis if self.kind(p['t']) == 'basic' and self.T(p['t'])['info'] & 2) and \
            any(self.kind(p['t']) == 'basic' and self.T(p['t'])['info'] & 2 for p in phis) and fr.visits.get(fr.block, 0) <= 40 and fr.name.endswith('init')

    def loop_needs_cut(self, fr, b):
        if fr.name.endswith('.init') or self.mode == 'concrete':
            return False
        return True

    # ---- loops
    def note_invariant(self, fn, b, c):
        self.invs_kept[(fn, b, c.name)] = c.user

    def do_loop(self, st0, fr0, b, phis, body):
        import loops
        return loops.cut(self, st0, b, phis, body)

    # ---------------------------------------------------------- instructions
    def setv(self, fr, in_, v):
        fr.env[in_['n']] = v
        fr.idx += 1
        return None

    def i_alloc(self, st, fr, in_):
        tid = self.T(in_['t'])['elem']
        ref = self.new_ref()
        if self.kind(tid) == 'array':
            t = self.T(tid)
            self.arr_set(st, ref, t['elem'], z3.K(z3.IntSort(), self.encode(self.zero(t['elem']), t['elem'])))
        else:
            self.store(st, ref, self.zero(tid), tid)
        return self.setv(fr, in_, ref)

    def nilcheck(self, st, p, pos, what='nil dereference'):
        if is_z3(p) and intval(p) is None:
            if st.ghost['nopanic']:
                self.prove(st, p != 0, 'no-panic', what, pos)
            st.assume(p != 0, 'b')
        elif is_z3(p) and intval(p) == 0:
            if st.ghost['nopanic']:
                self.prove(st, T_(False), 'no-panic', what, pos)
            raise Dead('nil dereference')

    def i_unop(self, st, fr, in_):
        o = in_['o']
        x = self.val(st, fr, in_['x'])
        if o == '*':
            self.nilcheck(st, x, in_.get('pos', ''))
            return self.setv(fr, in_, self.load(st, x, in_['t']))
        if o == '!':
            return self.setv(fr, in_, Not(x))
        if o == '-':
            return self.setv(fr, in_, simp(-x))
        if o == '^':
            return self.setv(fr, in_, simp(-x - 1))
        if o == '<-':
            ct = self.T(in_['xt'])['elem']
            v = self.fresh(st, ct, 'recv')
            if in_['ok']:
                v = Tup([v, z3.Bool(self.fresh_name('recvok'))])
            return self.setv(fr, in_, v)
        raise Undecided('unop ' + o)

    def i_store(self, st, fr, in_):
        a = self.val(st, fr, in_['a'])
        v = self.val(st, fr, in_['x'])
        self.nilcheck(st, a, in_.get('pos', ''))
        self.store(st, a, v, in_['xt'])
        if isinstance(a, PField) and 'DataDog/orchestrion' not in self.tname(a.tid) and not self.tname(a.tid).startswith('struct'):
            # handed to an object of external code
            self.escape(st, v, in_['xt'])
        fr.idx += 1

    def i_fieldaddr(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        self.nilcheck(st, x, in_.get('pos', ''))
        tid = self.T(in_['xt'])['elem']
        return self.setv(fr, in_, PField(x, tid, in_['f']))

    def i_field(self, st, fr, in_):
        return self.setv(fr, in_, self.val(st, fr, in_['x']).vals[in_['f']])

    def bounds(self, st, cond, pos, what):
        cond = simp(cond)
        if z3.is_true(cond):
            return
        if st.ghost['nopanic']:
            self.prove(st, cond, 'no-panic', what, pos)
        if z3.is_false(cond):
            raise Dead(what)
        st.assume(cond, 'b')

    def i_indexaddr(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        i = self.val(st, fr, in_['i'])
        t = self.T(in_['xt'])
        if t['k'] == 'slice':
            self.bounds(st, And(i >= 0, i < x.ln), in_.get('pos', ''), 'index out of range')
            return self.setv(fr, in_, PElem(x.arr, simp(x.off + i), t['elem']))
        at = self.T(t['elem'])
        self.bounds(st, And(i >= 0, i < at['len']), in_.get('pos', ''), 'index out of range')
        if is_z3(x):
            return self.setv(fr, in_, PElem(x, simp(i + 0), at['elem']))
        return self.setv(fr, in_, PArrElem(x, simp(i + 0), t['elem']))

    def i_index(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        i = self.val(st, fr, in_['i'])
        if is_z3(x) and x.sort() == z3.StringSort():
            self.bounds(st, And(i >= 0, i < z3.Length(x)), in_.get('pos', ''), 'index out of range')
            return self.setv(fr, in_, self.strbyte(st, x, i))
        iv = intval(i)
        self.bounds(st, And(i >= 0, i < len(x.vals)), in_.get('pos', ''), 'index out of range')
        if iv is None:
            v = x.vals[-1]
            for j in range(len(x.vals) - 2, -1, -1):
                v = self.merge(i == j, x.vals[j], v)
            return self.setv(fr, in_, v)
        return self.setv(fr, in_, x.vals[iv])

    def strbyte(self, st, s, i):
        c = simp(z3.StrToCode(z3.SubString(s, i, 1)))
        if not z3.is_int_value(c):
            st.assume(And(c >= 0, c <= 255))
        return c

    def i_lookup(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        i = self.val(st, fr, in_['i'])
        t = self.T(in_['xt'])
        if t['k'] == 'basic':
            self.bounds(st, And(i >= 0, i < z3.Length(x)), in_.get('pos', ''), 'index out of range')
            return self.setv(fr, in_, self.strbyte(st, x, i))
        has = self.map_has(st, x, i, in_['xt'])
        if z3.is_false(has):
            v = self.zero(t['elem'])
        else:
            v = self.map_get(st, x, i, in_['xt'])
            if not z3.is_true(has):
                v = self.merge(has, v, self.zero(t['elem']))
        if in_['ok']:
            v = Tup([v, has])
        return self.setv(fr, in_, v)

    def i_mapupdate(self, st, fr, in_):
        m = self.val(st, fr, in_['m'])
        self.nilcheck(st, m, in_.get('pos', ''), 'assignment to entry in nil map')
        self.map_store(st, m, self.val(st, fr, in_['key']), self.val(st, fr, in_['x']), in_['xt'])
        fr.idx += 1

    def i_mkmap(self, st, fr, in_):
        return self.setv(fr, in_, self.map_new(st, in_['t']))

    def i_mkchan(self, st, fr, in_):
        return self.setv(fr, in_, self.new_ref())

    def i_mkslice(self, st, fr, in_):
        ln = self.val(st, fr, in_['len'])
        et = self.T(in_['t'])['elem']
        self.bounds(st, ln >= 0, in_.get('pos', ''), 'makeslice: len out of range')
        return self.setv(fr, in_, SliceV(self.new_array(st, et), z3.IntVal(0), ln))

    def i_slice(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        lo = self.val(st, fr, in_['lo']) if in_['lo'] else z3.IntVal(0)
        t = self.T(in_['xt'])
        pos = in_.get('pos', '')
        if t['k'] == 'basic' or (is_z3(x) and x.sort() == z3.StringSort()):
            n = z3.Length(x)
            hi = self.val(st, fr, in_['hi']) if in_['hi'] else n
            self.bounds(st, And(lo >= 0, lo <= hi, hi <= n), pos, 'slice bounds out of range')
            return self.setv(fr, in_, simp(z3.SubString(x, lo, hi - lo)))
        if t['k'] == 'slice':
            hi = self.val(st, fr, in_['hi']) if in_['hi'] else x.ln
            # capacity is abstracted: re-slicing past len is outside the subset
            self.bounds(st, And(lo >= 0, lo <= hi, hi <= x.ln), pos, 'slice bounds out of range')
            return self.setv(fr, in_, SliceV(x.arr, simp(x.off + lo), simp(hi - lo)))
        at = self.T(t['elem'])
        hi = self.val(st, fr, in_['hi']) if in_['hi'] else z3.IntVal(at['len'])
        self.bounds(st, And(lo >= 0, lo <= hi, hi <= at['len']), pos, 'slice bounds out of range')
        if not is_z3(x):
            raise Undecided('slicing an embedded array')
        return self.setv(fr, in_, SliceV(x, simp(lo + 0), simp(hi - lo)))

    def tdiv(self, a, b):
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / -b))

    def i_binop(self, st, fr, in_):
        o = in_['o']
        x = self.val(st, fr, in_['x'])
        y = self.val(st, fr, in_['y'])
        xt = in_['xt']
        t = self.T(xt)
        if o in ('==', '!='):
            if self.kind(xt) == 'iface' or self.kind(in_['yt']) == 'iface':
                if self.kind(xt) != 'iface':
                    x = self.box(st, x, xt)
                if self.kind(in_['yt']) != 'iface':
                    y = self.box(st, y, in_['yt'])
                e = self.iface_eq(st, x, y)
            else:
                e = self.eq(x, y, xt)
            return self.setv(fr, in_, Not(e) if o == '!=' else e)
        isstr = t['k'] == 'basic' and t['info'] & 32
        if o == '+':
            return self.setv(fr, in_, simp(z3.Concat(x, y) if isstr else x + y))
        if o == '-':
            v = simp(x - y)
            return self.setv(fr, in_, v)
        if o == '*':
            return self.setv(fr, in_, simp(x * y))
        if o in ('/', '%'):
            if t['k'] == 'basic' and t['info'] & 8:
                return self.setv(fr, in_, simp(x / y))
            self.bounds(st, y != 0, in_.get('pos', ''), 'integer divide by zero')
            q = self.tdiv(x, y)
            return self.setv(fr, in_, simp(q if o == '/' else x - q * y))
        if o in ('<', '<=', '>', '>='):
            if isstr:
                if o == '<':
                    r = x < y
                elif o == '<=':
                    r = x <= y
                elif o == '>':
                    r = y < x
                else:
                    r = y <= x
            else:
                r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
            return self.setv(fr, in_, simp(r))
        if o in ('<<', '>>') and intval(y) is not None:
            p = 2 ** intval(y)
            return self.setv(fr, in_, simp(x * p if o == '<<' else x / p))
        a, b = intval(x), intval(y)
        if a is not None and b is not None:
            r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}.get(o)
            if r is not None:
                return self.setv(fr, in_, z3.IntVal(r))
        f = self.uf('bit' + o, z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(x, y)
        if o == '&':
            st.assume(z3.Implies(And(x >= 0, y >= 0), And(r >= 0, r <= x, r <= y)))
            # single-bit masks are exact
            for v, w in ((x, y), (y, x)):
                m = intval(w)
                if m is not None and m > 0 and m & (m - 1) == 0:
                    r = simp(z3.If((v / m) % 2 == 1, z3.IntVal(m), z3.IntVal(0)))
                    break
        return self.setv(fr, in_, r)

    def iface_eq(self, st, x, y):
        if x.eq(y):
            return T_(True)
        dx, dy = self.known_dyn(x), self.known_dyn(y)
        if dx is not None and y.eq(nilI) or dy is not None and x.eq(nilI):
            return T_(False)
        if dx is not None and dy is not None:
            if dx != dy:
                return T_(False)
            return simp(x.arg(0) == y.arg(0))
        return x == y

    def i_changetype(self, st, fr, in_):
        v = self.val(st, fr, in_['x'])
        return self.setv(fr, in_, self.retype(v, in_['xt'], in_['t']))

    def retype(self, v, a, b):
        return v

    def i_changeiface(self, st, fr, in_):
        return self.setv(fr, in_, self.val(st, fr, in_['x']))

    def i_convert(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        a, b = self.T(in_['xt']), self.T(in_['t'])
        if a['k'] == 'basic' and b['k'] == 'basic':
            ai, bi = a['info'], b['info']
            if ai & 2 and bi & 2:
                r = self.intrange(in_['t'])
                if r is None:
                    r = self.intrange_named(b)
                ra = self.intrange(in_['xt']) or self.intrange_named(a)
                if r and ra and (ra[0] < r[0] or ra[1] > r[1]) and intval(x) is None:
                    m = r[1] - r[0] + 1
                    inr = And(x >= r[0], x <= r[1])
                    x = z3.If(inr, x, (x - r[0]) % m + r[0])
                return self.setv(fr, in_, simp(x) if is_z3(x) else x)
            if ai & 32 and bi & 32:
                return self.setv(fr, in_, x)
            if ai & 2 and bi & 32:      # string(rune)
                return self.setv(fr, in_, self.rune_str(st, x))
            if ai & 2 and bi & 8:
                return self.setv(fr, in_, z3.ToReal(x))
            if ai & 8 and bi & 8:
                return self.setv(fr, in_, x)
        if a['k'] == 'slice' and b['k'] == 'basic' and b['info'] & 32:
            return self.setv(fr, in_, self.bytes_to_str(st, x, a['elem']))
        if b['k'] == 'slice' and a['k'] == 'basic' and a['info'] & 32:
            return self.setv(fr, in_, self.str_to_bytes(st, x, b['elem']))
        if a['k'] == b['k']:
            return self.setv(fr, in_, x)
        raise Undecided(f"conversion {a['s']} -> {b['s']}")

    def intrange_named(self, t):
        return None

    def rune_str(self, st, x):
        f = self.uf('rune_str', z3.IntSort(), z3.StringSort())
        return simp(z3.If(And(x >= 0, x < 128), z3.StrFromCode(x), f(x)))

    # []byte <-> string: bytes are kept per backing array; conversions are
    # related by uninterpreted functions with the inverse laws as facts
    def bytes_to_str(self, st, x, et):
        arr = self.arr_get(st, x.arr, et)
        # exact when the array is known to come from a string
        src = self._clo.get(('strof', arr.get_id()))
        if src is not None and intval(x.off) == 0:
            s, ar = src
            return simp(z3.SubString(s, 0, x.ln))
        if src is not None:
            s, ar = src
            return simp(z3.SubString(s, x.off, x.ln))
        n = intval(x.ln)
        if n is not None and n <= 16:
            parts = [z3.StrFromCode(simp(z3.Select(arr, simp(x.off + i)))) for i in range(n)]
            return simp(z3.Concat(*parts)) if len(parts) > 1 else (simp(parts[0]) if parts else z3.StringVal(''))
        f = self.uf('str_of', arr.sort(), z3.IntSort(), z3.IntSort(), z3.StringSort())
        s = f(arr, x.off, x.ln)
        st.assume(z3.Length(s) == x.ln)
        i = z3.Int(self.fresh_name('i'))
        st.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < x.ln), z3.StrToCode(z3.SubString(s, i, 1)) == z3.Select(arr, x.off + i)),
                            patterns=[z3.SubString(s, i, 1)]))
        return s

    def str_to_bytes(self, st, s, et):
        f = self.uf('bytes_of', z3.StringSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        arr = f(s)
        self._clo[('strof', arr.get_id())] = (s, arr)
        if z3.is_string_value(s):
            pass
        i = z3.Int(self.fresh_name('i'))
        st.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < z3.Length(s)), z3.Select(arr, i) == z3.StrToCode(z3.SubString(s, i, 1))),
                            patterns=[z3.Select(arr, i)]))
        ref = self.new_array(st, et, arr)
        return SliceV(ref, z3.IntVal(0), simp(z3.Length(s)))

    def i_mkiface(self, st, fr, in_):
        return self.setv(fr, in_, self.box(st, self.val(st, fr, in_['x']), in_['xt']))

    def i_mkclosure(self, st, fr, in_):
        return self.setv(fr, in_, Clo(in_['fn'], [self.val(st, fr, b) for b in in_['b']]))

    def implements(self, tid, iface):
        ms = self.methods.get(self.tname(tid))
        if ms is None:
            return None
        return all(m in ms for m in self.T(iface)['methods'])

    def i_typeassert(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        at = in_['at']
        t = self.T(at)
        dyn = self.known_dyn(x)
        if t['k'] == 'iface':
            if x.eq(nilI):
                ok = T_(False)
            elif dyn is not None and self.implements(dyn, at) is not None:
                ok = T_(self.implements(dyn, at))
            else:
                f = self.uf('implements', z3.IntSort(), z3.IntSort(), z3.BoolSort())
                ok = And(x != nilI, f(dyntype(x), z3.IntVal(at)))
                # every value of an interface type implements its own methods
                if set(t['methods']) <= set(self.T(in_['xt']).get('methods', [])):
                    ok = x != nilI
            val = x
            zero = nilI
            if in_['ok']:
                return self.branch2(st, fr, in_, ok, Tup([val, T_(True)]), Tup([zero, T_(False)]))
            self.bounds(st, ok, in_.get('pos', ''), 'interface conversion')
            return self.setv(fr, in_, val)
        ok = simp(dyntype(x) == at) if dyn is None else T_(dyn == at)
        if x.eq(nilI):
            ok = T_(False)
        if dyn is None and not x.eq(nilI):
            ok = And(x != nilI, ok)
        if z3.is_false(ok):
            if in_['ok']:
                return self.setv(fr, in_, Tup([self.zero(at), T_(False)]))
            self.bounds(st, ok, in_.get('pos', ''), 'interface conversion')
        v = self.unbox(st, x, at)
        if dyn is None:
            b, u = self._box[at]
            st.assume(z3.Implies(ok, b(u(x)) == x))
        if in_['ok']:
            return self.branch2(st, fr, in_, ok, Tup([v, T_(True)]), Tup([self.zero(at), T_(False)]))
        self.bounds(st, ok, in_.get('pos', ''), 'interface conversion')
        return self.setv(fr, in_, v)

    def branch2(self, st, fr, in_, cond, v1, v2):
        cond = simp(cond)
        if z3.is_true(cond):
            return self.setv(fr, in_, v1)
        if z3.is_false(cond):
            return self.setv(fr, in_, v2)
        out = []
        for c, v in ((cond, v1), (Not(cond), v2)):
            if not self.feasible(st, c):
                continue
            s = st.fork()
            s.assume(c, 'b')
            s.frames[-1].env[in_['n']] = v
            s.frames[-1].idx += 1
            out.append(s)
        return out

    def i_extract(self, st, fr, in_):
        return self.setv(fr, in_, self.val(st, fr, in_['x']).vals[in_['i']])

    def i_jump(self, st, fr, in_):
        self.goto(st, fr, fr.f['blocks'][fr.block]['s'][0])

    def i_if(self, st, fr, in_):
        c = simp(self.val(st, fr, in_['x']))
        t, f = fr.f['blocks'][fr.block]['s']
        if z3.is_true(c):
            self.goto(st, fr, t)
            return None
        if z3.is_false(c):
            self.goto(st, fr, f)
            return None
        ft = self.feasible(st, c)
        ff = self.feasible(st, Not(c))
        if ft and ff:
            s2 = st.fork()
            st.assume(c, 'b')
            s2.assume(Not(c), 'b')
            self.goto(st, fr, t)
            self.goto(s2, s2.frames[-1], f)
            return [st, s2]
        if ft:
            st.assume(c, 'b')
            self.goto(st, fr, t)
            return None
        if ff:
            st.assume(Not(c), 'b')
            self.goto(st, fr, f)
            return None
        return []

    def i_return(self, st, fr, in_):
        vals = [self.val(st, fr, r) for r in in_['r']]
        v = vals[0] if len(vals) == 1 else Tup(vals)
        st.frames.pop()
        return self.deliver(st, fr.ret, v)

    def deliver(self, st, ret, v):
        if ret is None:
            st.result = v
            return None
        if callable(ret):
            return ret(st, v)
        kind, name = ret
        caller = st.frames[-1]
        if kind == 'reg':
            if name is not None:
                caller.env[name] = v
            caller.idx += 1
        elif kind == 'defer':
            pass
        return None

    def i_panic(self, st, fr, in_):
        if st.ghost['nopanic'] and not st.ghost['maypanic']:
            self.prove(st, T_(False), 'no-panic', 'explicit panic', in_.get('pos', ''))
        raise Dead('panic')

    def i_rundefers(self, st, fr, in_):
        if not fr.defers:
            fr.idx += 1
            return None
        call, fnv, args = fr.defers.pop()
        return self.docall(st, fr, call, fnv, args, ('defer', None), None)

    def i_defer(self, st, fr, in_):
        call = in_['call']
        fnv, args = self.callee(st, fr, call)
        fr.defers.append((call, fnv, args))
        fr.idx += 1

    def i_go(self, st, fr, in_):
        self.assumed['go statement: goroutine body not modelled'] += 1
        fr.idx += 1

    def i_send(self, st, fr, in_):
        fr.idx += 1

    def i_select(self, st, fr, in_):
        out = []
        n = len(in_['states'])
        tt = self.T(in_['t'])['elems']
        for j in list(range(n)) + ([-1] if not in_['blocking'] else []):
            s = st.fork()
            vals = [z3.IntVal(j), z3.Bool(self.fresh_name('selok'))]
            for k in range(2, len(tt)):
                vals.append(self.fresh(s, tt[k], 'sel'))
            s.frames[-1].env[in_['n']] = Tup(vals)
            s.frames[-1].idx += 1
            out.append(s)
        return out

    def i_range(self, st, fr, in_):
        x = self.val(st, fr, in_['x'])
        t = self.T(in_['xt'])
        self._ctr += 1
        uid = self._ctr
        kind = 'str' if t['k'] == 'basic' else 'map'
        it = IterV(kind, x, in_['xt'], uid)
        if kind == 'map':
            st.mem[('it', uid)] = z3.K(self.sort(t['key']), z3.BoolVal(False))
            st.mem[('itn', uid)] = z3.IntVal(0)
        else:
            st.mem[('itn', uid)] = z3.IntVal(0)
        return self.setv(fr, in_, it)

    def i_next(self, st, fr, in_):
        it = self.val(st, fr, in_['x'])
        tt = self.T(in_['t'])['elems']
        out = []
        if it.kind == 'map':
            mt = it.tid
            t = self.T(mt)
            seen = st.mem[('it', it.uid)]
            n = st.mem[('itn', it.uid)]
            dom = self.map_dom(st, it.x, mt)
            ln = self.map_len(st, it.x, mt)
            # exhausted
            s1 = st.fork()
            k = z3.Const(self.fresh_name('k'), self.sort(t['key']))
            empty = T_(False) if intval(it.x) is not None else it.x == 0
            s1.assume(Or(empty, z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.Select(seen, k)))), 'b')
            s1.assume(Or(empty, n == ln), 'f')
            if self.feasible(s1):
                s1.frames[-1].env[in_['n']] = Tup([T_(False), self.zero(t['key']), self.zero(t['elem'])])
                s1.frames[-1].idx += 1
                out.append(s1)
            s2 = st.fork()
            kv = self.fresh(s2, t['key'], 'key')
            ek = self.encode(kv, t['key'])
            s2.assume(And(z3.Select(dom, ek), z3.Not(z3.Select(seen, ek)), n < ln), 'b')
            if intval(it.x) is None:
                s2.assume(it.x != 0, 'b')
            if self.feasible(s2):
                v = self.map_get(s2, it.x, kv, mt)
                s2.wlog.append((('it', it.uid), ek))
                s2.mem[('it', it.uid)] = z3.Store(seen, ek, z3.BoolVal(True))
                s2.mem[('itn', it.uid)] = n + 1
                s2.frames[-1].env[in_['n']] = Tup([T_(True), kv, v])
                s2.frames[-1].idx += 1
                out.append(s2)
            return out
        n = st.mem[('itn', it.uid)]
        s = it.x
        s1 = st.fork()
        s1.assume(n >= z3.Length(s), 'b')
        if self.feasible(s1):
            s1.frames[-1].env[in_['n']] = Tup([T_(False), z3.IntVal(0), z3.IntVal(0)])
            s1.frames[-1].idx += 1
            out.append(s1)
        s2 = st.fork()
        s2.assume(And(n >= 0, n < z3.Length(s)), 'b')
        if self.feasible(s2):
            c = self.strbyte(s2, s, n)
            # ASCII characters are exact; others decode to some rune of 1..4 bytes
            r = z3.Int(self.fresh_name('rune'))
            w = z3.Int(self.fresh_name('width'))
            s2.assume(z3.If(c < 128, And(r == c, w == 1), And(r >= 128, r <= 0x10FFFF, w >= 1, w <= 4, n + w <= z3.Length(s))), 'f')
            s2.mem[('itn', it.uid)] = n + w
            s2.frames[-1].env[in_['n']] = Tup([T_(True), n, r])
            s2.frames[-1].idx += 1
            out.append(s2)
        return out

    # ------------------------------------------------------------------ calls
    def callee(self, st, fr, call):
        args = [self.val(st, fr, a) for a in call['args']]
        if 'invoke' in call:
            return ('invoke', self.val(st, fr, call['recv']), call['invoke'], call['iface']), args
        return self.val(st, fr, call['fn']), args

    def i_call(self, st, fr, in_):
        fnv, args = self.callee(st, fr, in_['call'])
        return self.docall(st, fr, in_['call'], fnv, args, ('reg', in_['n']), in_)

    def result_type(self, call):
        rs = call['sig']['results']
        return [r[1] for r in rs]

    def havoc_result(self, st, call, hint='ext'):
        rs = self.result_type(call)
        vals = [self.fresh(st, t, hint) for t in rs]
        if len(vals) == 1:
            return vals[0]
        return Tup(vals)

    def finish(self, st, ret, v):
        return self.deliver(st, ret, v)

    def docall(self, st, fr, call, fnv, args, ret, in_):
        pos = in_.get('pos', '') if in_ else ''
        if isinstance(fnv, tuple) and fnv[0] == 'invoke':
            _, recv, m, iface = fnv
            dyn = self.known_dyn(recv)
            if dyn is None and not recv.eq(nilI):
                dyn = self.implied_dyn(st, recv)
            if recv.eq(nilI):
                if st.ghost['nopanic']:
                    self.prove(st, T_(False), 'no-panic', 'method call on nil interface', pos)
                raise Dead('nil interface')
            if dyn is not None:
                ms = self.methods.get(self.tname(dyn))
                if ms and m in ms:
                    rv = self.unbox(st, recv, dyn)
                    return self.callfn(st, fr, call, ms[m], [rv] + args, ret, pos)
            if st.ghost['nopanic']:
                self.prove(st, recv != nilI, 'no-panic', 'method call on nil interface', pos)
            st.assume(recv != nilI, 'b')
            return self.invoke_unknown(st, fr, call, recv, m, iface, args, ret, pos)
        if isinstance(fnv, tuple) and fnv[0] == 'builtin':
            v = self.builtin(st, fr, call, fnv[1], args, pos, in_)
            return self.finish(st, ret, v)
        if isinstance(fnv, Clo):
            return self.callfn(st, fr, call, fnv.fn, args, ret, pos, fnv.binds)
        # unknown function value
        if is_z3(fnv):
            if st.ghost['nopanic']:
                self.prove(st, fnv != 0, 'no-panic', 'call of nil function', pos)
            st.assume(fnv != 0, 'b')
            return self.finish(st, ret, self.apply_unknown(st, call, 'fnval', fnv, args))
        raise Undecided(f'call of {fnv!r}')

    def implied_dyn(self, st, x):
        """Dynamic type fixed by an equality dyntype(x) == c in the path condition."""
        for k, t in reversed(st.pc):
            for c in (t.children() if z3.is_and(t) else [t]):
                if z3.is_eq(c):
                    a, b = c.children()
                    if z3.is_int_value(b) and z3.is_app(a) and a.decl().eq(dyntype) and a.arg(0).eq(x):
                        return b.as_long()
                    if z3.is_int_value(a) and z3.is_app(b) and b.decl().eq(dyntype) and b.arg(0).eq(x):
                        return a.as_long()
        return None

    def uf_args(self, st, args, tids):
        out = []
        for a, t in zip(args, tids):
            if isinstance(a, SliceV):
                et = self.T(t)['elem']
                # contents are part of the argument; start and end keep tails of
                # one slice comparable
                out += [self.arr_get(st, a.arr, et), simp(a.off), simp(addo(a.off, a.ln))]
            else:
                out.append(self.encode(a, t))
        return out

    def pure_result(self, st, name, call, args, tids):
        """Results of a deterministic function of its arguments (uninterpreted)."""
        ea = self.uf_args(st, args, tids)
        vals = []
        for i, rt in enumerate(self.result_type(call)):
            s = self.sort(rt)
            f = self.uf(f'{name}.{i}', *([x.sort() for x in ea] + [s]))
            vals.append(self.decode(st, f(*ea) if ea else z3.Const(f'pure:{name}.{i}', s), rt))
        return vals[0] if len(vals) == 1 else Tup(vals)

    def apply_unknown(self, st, call, name, fnv, args):
        tids = [p[1] for p in call['sig']['params']]
        if call['sig'].get('recv'):
            tids = tids[1:]
        self.assumed['unknown function values are deterministic and have no effect on modelled state'] += 1
        return self.pure_result(st, 'app:' + call_sig_name(self, call), call, [fnv] + args, [self._inttid()] + tids)

    def _inttid(self):
        return self.bystr['int']

    def invoke_unknown(self, st, fr, call, recv, m, iface, args, ret, pos):
        iname = self.tname(iface)
        key = f'{iname}.{m}'
        mod = self.models.get('iface:' + key) or self.models.get('iface:*.' + m)
        if mod is not None:
            v = mod(self, st, call, [recv] + args)
            return self.model_result(st, fr, call, v, ret)
        tids = [p[1] for p in call['sig']['params']]
        if call['sig'].get('recv'):
            tids = tids[1:]
        self.assumed[f'interface method {key}: deterministic, effect-free'] += 1
        v = self.pure_result(st, 'im:' + m, call, [recv] + args, [iface] + tids)
        return self.finish(st, ret, v)

    def model_result(self, st, fr, call, v, ret):
        if isinstance(v, Push):
            def cont(s, val, v=v, ret=ret):
                if v.cont is not None:
                    val = v.cont(s, val)
                    if isinstance(val, Push):
                        return self.model_result(s, s.frames[-1], call, val, ret)
                return self.deliver(s, ret, val)
            if not isinstance(v.clo, Clo):
                raise Undecided('callback is not a known closure')
            self.push(st, v.clo.fn, v.args, v.clo.binds, cont)
            return None
        if isinstance(v, Fork):
            out = []
            for c, val in v.alts:
                c = simp(c)
                if z3.is_false(c) or not self.feasible(st, c):
                    continue
                s = st.fork()
                s.assume(c, 'b')
                val = val(s) if callable(val) else val
                if isinstance(val, Push):
                    r = self.model_result(s, s.frames[-1], call, val, ret)
                    r = None if r is None else r
                else:
                    r = self.deliver(s, ret, val)
                out.append(s) if r is None else out.extend(r)
            return out
        return self.deliver(st, ret, v)

    def generic_base(self, name):
        i = name.find('[')
        # strip the type arguments of instantiations; "(*T[X]).m" forms too
        out, depth = [], 0
        for ch in name:
            if ch == '[':
                depth += 1
            if depth == 0:
                out.append(ch)
            if ch == ']':
                depth -= 1
        return ''.join(out)

    def callfn(self, st, fr, call, name, args, ret, pos, binds=()):
        base = self.generic_base(name) if '[' in name else name
        if base.startswith(GHOST + '.') or base.startswith('(' + GHOST):
            import ghost
            r = ghost.call(self, st, fr, call, base, name, args, ret, pos)
            return r
        if base.endswith('.init') or '.init#' in base:
            return self.finish(st, ret, Tup([]))
        c = self.contracts.get(base)
        if c is not None and not self.contract_inline(st, base, c):
            import ghost
            return ghost.apply_contract(self, st, fr, call, base, c, args, ret, pos)
        mod = self.models.get(base)
        if mod is not None:
            v = mod(self, st, call, args, name) if getattr(mod, 'wants_name', False) else mod(self, st, call, args)
            return self.model_result(st, fr, call, v, ret)
        f = self.funcs.get(name)
        if f is not None and 'blocks' in f and not self.is_external(f, name):
            self.push(st, name, args, binds, ret)
            return None
        return self.finish(st, ret, self.external(st, call, base, args))

    def is_external(self, f, name):
        return False

    def contract_inline(self, st, base, c):
        inl = st.ghost.get('inline', ())
        if base in inl:
            st.ghost['inline'] = tuple(x for x in inl if x != base)
            return True
        return False

    NOEFFECT = ('github.com/rs/zerolog', 'github.com/DataDog/dd-trace-go', 'log.', '(*log.', 'os.Getpid', '(*github.com/rs/zerolog',
                '(github.com/rs/zerolog', '(*github.com/DataDog/dd-trace-go', 'fmt.Fprint', 'runtime.')

    # functions that neither write through their arguments nor keep them
    READONLY = ('fmt.', 'errors.', 'strings.', 'strconv.', 'bytes.', 'path.', 'path/filepath.', 'os/exec.Command', 'unicode', 'regexp.',
                'go/token.', 'go/constant.', 'slices.', 'maps.', 'os.ReadFile', 'os.Stat', 'os.Open', 'os.Getenv', 'os.WriteFile', 'os.Remove',
                'os.Mkdir', 'context.', 'time.', 'encoding/json.Marshal', 'encoding/base64', 'gopkg.in/yaml.v3.Marshal', 'io.WriteString')

    def external(self, st, call, name, args):
        """Abstracts a function without source or model: arbitrary result; objects
        allocated here and passed to it, or handed out earlier, are havocked."""
        self.assumed[f'external {name}: arbitrary result, writes only objects handed to external code'] += 1
        bare = name.lstrip('(*')
        if not bare.startswith(self.NOEFFECT):
            tids = [p[1] for p in call['sig']['params']]
            if call['sig'].get('recv') and len(tids) > len(args):
                tids = tids[1:]
            if not bare.startswith(self.READONLY):
                for a, t in zip(args, tids):
                    self.escape(st, a, t)
            for a, t in st.ghost.get('esc', ()):
                self.havoc_arg(st, a, t)
        r = self.havoc_result(st, call, 'ext')
        if name in self.NONNIL:
            for v in (r.vals if isinstance(r, Tup) else [r]):
                if is_z3(v) and v.sort() == IfaceS:
                    st.assume(v != nilI)
                elif is_z3(v) and v.sort() == z3.IntSort():
                    st.assume(v != 0)
        return r

    # documented never to return nil
    NONNIL = ('github.com/rs/zerolog.Ctx', 'context.WithCancel', 'context.WithTimeout', 'context.WithDeadline', 'context.WithValue', 'context.WithoutCancel')

    def escape(self, st, a, t):
        """Records an object that external code may write from now on."""
        k = self.kind(t)
        if k == 'iface':
            d = self.known_dyn(a) if is_z3(a) else None
            if d is not None:
                self.escape(st, self.unbox(st, a, d), d)
            return
        if k == 'slice':
            ek = self.kind(self.T(t)['elem'])
            v = intval(a.arr)
            if ek in ('iface', 'ptr'):
                n = intval(a.ln)
                for i in range(n or 0):
                    self.escape(st, self.elem(st, a, i, self.T(t)['elem']), self.T(t)['elem'])
            if v is None or v < ALLOC0:
                return
        elif k != 'ptr' or is_z3(a) and (intval(a) is None or intval(a) < ALLOC0):
            return
        esc = st.ghost.get('esc', ())
        for b, u in esc:
            if u == t and (b is a or is_z3(a) and is_z3(b) and a.eq(b)):
                return
        st.ghost['esc'] = esc + ((a, t),)

    def havoc_arg(self, st, a, t):
        et = self.T(t)['elem']
        if self.kind(t) == 'slice':
            self.arr_set(st, a.arr, et, z3.Const(self.fresh_name('hva'), z3.ArraySort(z3.IntSort(), self.sort(et))))
            return
        if self.tname(et) in ('strings.Builder', 'bytes.Buffer'):
            key, r = self.ghost_cell(a, 'text', 'string')
            self.cwrite(st, key, self.cell(st, key, self.bystr['string']), r, z3.Const(self.fresh_name('hvt'), z3.StringSort()))
            return
        self.store(st, a, self.fresh(st, et, 'hv'), et)

    def builtin(self, st, fr, call, name, args, pos, in_):
        sigp = [p[1] for p in call['sig']['params']]
        if name == 'len':
            x = args[0]
            if isinstance(x, SliceV):
                return x.ln
            if is_z3(x) and x.sort() == z3.StringSort():
                return simp(z3.Length(x))
            if isinstance(x, ArrV):
                return z3.IntVal(len(x.vals))
            t = sigp[0]
            if self.kind(t) == 'map':
                return z3.If(x == 0, z3.IntVal(0), self.map_len(st, x, t)) if intval(x) is None else self.map_len(st, x, t)
            if self.kind(t) == 'ptr':
                return z3.IntVal(self.T(self.T(t)['elem'])['len'])
            return self.fresh(st, self._inttid(), 'len')
        if name == 'cap':
            x = args[0]
            c = z3.Int(self.fresh_name('cap'))
            st.assume(c >= (x.ln if isinstance(x, SliceV) else 0))
            return c
        if name == 'append':
            t = sigp[0]
            return self.append(st, args[0], args[1] if len(args) > 1 else None, t)
        if name == 'copy':
            dst, src = args
            et = self.T(sigp[0])['elem']
            if not isinstance(src, SliceV):
                n = simp(z3.If(dst.ln < z3.Length(src), dst.ln, z3.Length(src)))
                raise Undecided('copy from string')
            n = simp(z3.If(dst.ln < src.ln, dst.ln, src.ln))
            self.arr_set(st, dst.arr, et, self.arr_copy(st, self.arr_get(st, dst.arr, et), dst.off, self.arr_get(st, src.arr, et), src.off, n))
            return n
        if name == 'delete':
            m = args[0]
            if intval(m) is None:
                # delete on a nil map is a no-op; treat as non-nil
                st.assume(m != 0, 'b')
            self.map_delete(st, m, args[1], sigp[0])
            return Tup([])
        if name == 'clear':
            t = sigp[0]
            if self.kind(t) == 'map':
                tt = self.T(t)
                (kd, cd), (kv, cv), (kl, cl) = self.map_cells(st, t)
                self.cwrite(st, kd, cd, args[0], z3.K(self.sort(tt['key']), z3.BoolVal(False)))
                self.cwrite(st, kl, cl, args[0], z3.IntVal(0))
                return Tup([])
            raise Undecided('clear')
        if name in ('print', 'println', 'close'):
            return Tup([])
        if name in ('min', 'max'):
            v = args[0]
            for a in args[1:]:
                v = z3.If((a < v) if name == 'min' else (a > v), a, v)
            return simp(v)
        if name == 'recover':
            return nilI
        if name.startswith('ssa:wrapnilchk'):
            return args[0]
        raise Undecided('builtin ' + name)

    def arr_copy(self, st, dst, doff, src, soff, n):
        """dst with n elements of src copied at doff."""
        cn = intval(n)
        if cn is not None and cn <= 16:
            for i in range(cn):
                dst = z3.Store(dst, simp(doff + i), simp(z3.Select(src, simp(soff + i))))
            return dst
        a = z3.Const(self.fresh_name('arr'), dst.sort())
        i = z3.Int(self.fresh_name('i'))
        st.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(And(i >= doff, i < doff + n), z3.Select(src, i - doff + soff), z3.Select(dst, i)),
                            patterns=[z3.Select(a, i)]))
        return a

    def append(self, st, s, more, t):
        et = self.T(t)['elem']
        if more is None:
            return s
        if not isinstance(more, SliceV):      # append([]byte, string...)
            more = self.str_to_bytes(st, more, et)
        if intval(more.ln) == 0:
            return s
        src = self.arr_get(st, more.arr, et)
        if intval(s.ln) == 0:
            cn = intval(more.ln)
            if cn is not None and cn <= 16:
                content = self.arr_copy(st, z3.K(z3.IntSort(), self.encode(self.zero(et), et)), z3.IntVal(0), src, more.off, more.ln)
                ref = self.new_array(st, et, content)
                return SliceV(ref, z3.IntVal(0), more.ln)
            # copy of another slice: same content, same offset, fresh identity
            ref = self.new_array(st, et, src)
            return SliceV(ref, more.off, more.ln)
        base = self.arr_get(st, s.arr, et)
        content = self.arr_copy(st, base, simp(s.off + s.ln), src, more.off, more.ln)
        # result modelled as a fresh backing array (sharing of spare capacity is
        # outside the subset)
        ref = self.new_array(st, et, content)
        nl = simp(s.ln + more.ln)
        if intval(s.ln) is None and intval(more.ln) is None:
            ref_arr = z3.If(And(s.arr == 0, more.ln == 0), z3.IntVal(0), ref)
            return SliceV(ref, s.off, nl)
        return SliceV(ref, s.off, nl)

    # ---------------------------------------------------- package variables
    def reachable(self, name):
        seen, work = {name}, [name]
        globs = set()
        while work:
            n = work.pop()
            f = self.funcs.get(n)
            if not f or 'blocks' not in f:
                continue
            def walk(o):
                if isinstance(o, list):
                    if len(o) == 3 and o[0] == 'g':
                        globs.add((o[1], o[2]))
                        return
                    if len(o) == 3 and o[0] == 'f' and isinstance(o[1], str):
                        if o[1] not in seen:
                            seen.add(o[1])
                            work.append(o[1])
                        return
                    for x in o:
                        walk(x)
                elif isinstance(o, dict):
                    for k, x in o.items():
                        if k == 'fn' and isinstance(x, str):
                            if x not in seen:
                                seen.add(x)
                                work.append(x)
                        elif k == 'invoke':
                            for ms in self.methods.values():
                                t = ms.get(x)
                                if t and t not in seen:
                                    seen.add(t)
                                    work.append(t)
                        else:
                            walk(x)
            walk(f['blocks'])
        return seen, globs

    def mutable_globals(self):
        mg = self.d.get('_mutable')
        if mg is not None:
            return mg
        mg = set()
        for n, f in self.funcs.items():
            if 'blocks' not in f or n.endswith('.init'):
                continue
            loads = {}
            for b in f['blocks']:
                for i in b['i']:
                    if i['op'] == 'store' and i['a'][0] == 'g':
                        mg.add(i['a'][1])
                    elif i['op'] == 'unop' and i['o'] == '*' and i['x'][0] == 'g':
                        loads[i['n']] = i['x'][1]
                    elif i['op'] == 'mapupdate' and i['m'][0] == 'r' and i['m'][1] in loads:
                        mg.add(loads[i['m'][1]])
        self.d['_mutable'] = mg
        return mg

    def init_globals(self, name):
        seen, globs = self.reachable(name)
        pk = {g.rsplit('.', 1)[0] for g, _ in globs}
        mem = {}
        facts = []
        self._initlog = []
        mut = self.mutable_globals()
        for p in sorted(pk):
            fn = p + '.init'
            f = self.funcs.get(fn)
            if not f or 'blocks' not in f or 'orchestrion' not in p:
                continue
            st = State()
            st.mem = dict(mem)
            st.mem[('g', p + '.init$guard')] = z3.BoolVal(False)
            st.frames = [Frame(fn, f, [], [], None)]
            self.suppress += 1
            steps = 0
            try:
                while st.frames and steps < 20000:
                    steps += 1
                    try:
                        r = self.step(st, None)
                        if r is not None:
                            if len(r) == 1:
                                st = r[0]
                                continue
                            raise Undecided('branch in initialiser')
                    except (Undecided, Dead) as e:
                        del st.frames[1:]
                        fr = st.frames[0]
                        in_ = fr.f['blocks'][fr.block]['i'][fr.idx]
                        self._initlog.append(f'{p}: {in_["op"]}: {e}')
                        if in_['op'] in ('if', 'jump', 'return', 'panic'):
                            break
                        if in_.get('n') is not None and isinstance(in_.get('t'), int):
                            t = in_['t']
                            fr.env[in_['n']] = self.fresh(st, t, 'init') if self.kind(t) != 'tuple' else Tup([self.fresh(st, x, 'init') for x in self.T(t)['elems']])
                        fr.idx += 1
            finally:
                self.suppress -= 1
            mem = st.mem
            facts += st.pc
        for k in list(mem):
            if k[0] == 'g' and k[1] in mut:
                del mem[k]
        self.init_facts = facts
        return mem

    # ------------------------------------------------------- pure evaluation
    def eval_pure(self, st, clo, args):
        """Value of a call without side effects, merged over its paths.  Facts
        established on the way are added to st."""
        if not isinstance(clo, Clo):
            raise Undecided('callback is not a known closure')
        sub = st.fork()
        n0 = len(sub.pc)
        results = []
        outer = st.frames
        sub.frames = []
        self.push(sub, clo.fn, args, clo.binds, None)
        sub.ghost = dict(sub.ghost)
        if 'quant' not in sub.ghost:
            pass
        save = self.on_end
        saves = self.suppress
        pc0 = self.path_count

        def end(s):
            results.append(s)
        self.on_end = end
        if not st.ghost['nopanic']:
            self.suppress += 1
        try:
            self.explore(sub)
        finally:
            self.on_end = save
            self.suppress = saves
        if not results:
            raise Dead('pure call never returns')
        val = None
        conds = []
        for s in results:
            bc = And(*[t for k, t in s.pc[n0:] if k == 'b'])
            conds.append(bc)
            for k, t in s.pc[n0:]:
                if k in ('f', 'r', 'q'):
                    st.assume(z3.Implies(bc, t) if not z3.is_true(bc) else t, k)
        val = results[-1].result
        for s, bc in list(zip(results, conds))[-2::-1]:
            val = self.merge(bc, s.result, val)
        return simp(val) if is_z3(val) else val

    def quantify(self, st, bound, guard, clo, args, forall=True):
        """forall/exists over the given constants of clo(args)."""
        sub = st.fork()
        n0 = len(sub.pc)
        for g in (guard if isinstance(guard, list) else [guard]):
            sub.assume(g, 'b')
        n1 = len(sub.pc)
        b = self.eval_pure(sub, clo, args)
        names = {c.decl().name() for c in bound}
        facts = [(k, t) for k, t in sub.pc[n1:]]
        for fk, f in facts:
            fc = free_consts(f)
            if any(n in names for n in fc):
                if fk in ('r', 'q'):
                    # range facts under a quantifier slow the search down: tried last
                    if has_quant(f):
                        continue
                    fk = 'q'
                st.assume(z3.ForAll(bound, z3.Implies(And(*guard) if isinstance(guard, list) else guard, f)), fk if fk != 'b' else 'f')
            else:
                st.assume(f, fk if fk != 'b' else 'f')
        g = And(*guard) if isinstance(guard, list) else guard
        if forall:
            body = z3.Implies(g, b)
            return z3.ForAll(bound, body)
        return z3.Exists(bound, And(g, b))


_hq = {}


def has_quant(t):
    k = t.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    stack = [t]
    seen = set()
    res = False
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            res = True
            break
        stack.extend(e.children())
    _hq[k] = (t, res)
    return res


def call_sig_name(eng, call):
    s = call['sig']
    return ','.join(str(p[1]) for p in s['params']) + '>' + ','.join(str(p[1]) for p in s['results'])
