"""Logical meaning of the ghost vocabulary, and application of contracts."""
import z3

from core import *
from engine_exc import Dead

GHOST = 'github.com/DataDog/orchestrion/internal/zzghost'


def strarg(x):
    return x.as_string() if z3.is_string_value(x) else str(x)


def bools(E, st, sl, t):
    n = intval(sl.ln)
    if n is None:
        raise Undecided('variadic of unknown length')
    return [E.elem(st, sl, i, E.bystr['bool']) for i in range(n)]


def mapt(E, call, i=0):
    ps = [p[1] for p in call['sig']['params']]
    return ps[i]


def call(E, st, fr, call, base, name, args, ret, pos):
    fn = base[len(GHOST) + 1:]
    void = Tup([])
    applying = st.ghost.get('applying')
    mode_apply = applying is not None and applying[0] == len(st.frames)
    if fn in ('Assume',):
        b = simp(args[0])
        if mode_apply:
            E.prove(st, b, 'precondition of ' + applying[1], 'requires', pos)
        if z3.is_false(b):
            raise Dead('assume false')
        st.assume(b, 'b')
        if not z3.is_true(b) and not E.feasible(st):
            raise Dead('assume')
        return E.deliver(st, ret, void)
    if fn == 'Fact':
        st.assume(args[0], 'f')
        E.assumed['unfolded definitions of specification functions'] += 1
        return E.deliver(st, ret, void)
    if fn == 'Halt':
        raise Dead('halt')
    if fn == 'Assert':
        if mode_apply:
            st.assume(args[1], 'f')
        else:
            E.prove(st, args[1], strarg(args[0]), 'assert', pos)
            st.assume(args[1], 'f')
        return E.deliver(st, ret, void)
    if fn == 'Cover':
        if not mode_apply:
            lab = strarg(args[0])
            if E.covers.get(lab) != 'sat' and not E.suppress:
                ground = st.terms()
                r, s = E.check(ground, 4000)
                if r != z3.unsat:
                    E.covers[lab] = 'sat' if r == z3.sat else 'not refuted'
                else:
                    E.covers.setdefault(lab, 'unreachable')
        return E.deliver(st, ret, void)
    if fn == 'NoPanic' or fn == 'MayPanic':
        if not mode_apply:
            st.ghost['nopanic'] = fn == 'NoPanic'
        return E.deliver(st, ret, void)
    if fn in ('Forall', 'Exists'):
        lo, hi, f = args
        i = z3.Int('q!%d' % E._ctr)
        E._ctr += 1
        cl, ch = intval(lo), intval(hi)
        if cl is not None and ch is not None and ch - cl <= 4:
            vs = [E.eval_pure(st, f, [z3.IntVal(k)]) for k in range(cl, ch)]
            v = And(*vs) if fn == 'Forall' else Or(*vs)
        else:
            v = E.quantify(st, [i], And(i >= lo, i < hi), f, [i], fn == 'Forall')
        return E.deliver(st, ret, v)
    if fn in ('AllKeys', 'SomeKey'):
        m, f = args
        mt = mapt(E, call)
        kt = E.T(mt)['key']
        k = z3.Const('qk!%d' % E._ctr, E.sort(kt))
        E._ctr += 1
        dom = E.map_dom(st, m, mt)
        g = z3.Select(dom, k)
        if intval(m) is None:
            g = And(m != 0, g)
        kv = E.decode(None, k, kt)
        v = E.quantify(st, [k], g, f, [kv], fn == 'AllKeys')
        return E.deliver(st, ret, v)
    if fn == 'All':
        f = args[0]
        ft = E.T(mapt(E, call))
        pt = ft['sig']['params'][0][1]
        k = z3.Const('qa!%d' % E._ctr, E.sort(pt))
        E._ctr += 1
        return E.deliver(st, ret, E.quantify(st, [k], z3.BoolVal(True), f, [E.decode(None, k, pt)], True))
    if fn == 'Rel':
        nm, sl = args
        n = intval(sl.ln)
        xs = [E.elem(st, sl, i, E.bystr['string']) for i in range(n)]
        return E.deliver(st, ret, E.uf('rel:' + strarg(nm), *([z3.StringSort()] * n + [z3.BoolSort()]))(*xs))
    if fn == 'SameObj':
        return E.deliver(st, ret, simp(args[0] == args[1]))
    if fn == 'Fn':
        nm, sl = args
        n = intval(sl.ln)
        xs = [E.elem(st, sl, i, E.bystr['string']) for i in range(n)]
        return E.deliver(st, ret, E.uf('fn:' + strarg(nm), *([z3.StringSort()] * (n + 1)))(*xs))
    if fn == 'Visited':
        key = getattr(E, 'visit_key', None)
        if key is None or key not in st.mem:
            raise Undecided('Visited outside of a loop invariant')
        kt = mapt(E, call)
        return E.deliver(st, ret, z3.Select(st.mem[key], E.encode(args[0], kt)))
    if fn in ('And', 'Or'):
        bs = bools(E, st, args[0], None)
        return E.deliver(st, ret, simp((And if fn == 'And' else Or)(*bs)))
    if fn == 'Implies':
        return E.deliver(st, ret, simp(z3.Implies(args[0], args[1])))
    if fn == 'Iff':
        return E.deliver(st, ret, simp(args[0] == args[1]))
    if fn == 'If':
        c, a, b = args
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Undecided('If of a composite value')
        return E.deliver(st, ret, simp(z3.If(c, a, b)))
    if fn == 'Inv':
        if mode_apply:
            return E.deliver(st, ret, void)
        x = args[0]
        d = E.known_dyn(x)
        clo = E.unbox(st, x, d) if d is not None else None
        if not isinstance(clo, Clo):
            v = intval(clo) if clo is not None else None
            clo = E._registry.get(v)
        if not isinstance(clo, Clo):
            raise Undecided('Inv argument')
        st.ghost['invs'] = st.ghost['invs'] + (clo,)
        return E.deliver(st, ret, void)
    if fn in ('Contract', 'Pure', 'Notef'):
        return E.deliver(st, ret, void)
    if fn == 'Has':
        mt = mapt(E, call)
        return E.deliver(st, ret, E.map_has(st, args[0], args[1], mt))
    if fn == 'SnapMap':
        mt = mapt(E, call)
        m = args[0]
        r = E.map_snapshot(st, m, mt)
        if intval(m) is None:
            r2 = z3.If(m == 0, z3.IntVal(0), r)
            return E.deliver(st, ret, r2)
        return E.deliver(st, ret, r if intval(m) != 0 else m)
    if fn == 'SnapSlice':
        et = E.T(mapt(E, call))['elem']
        s = args[0]
        ref = E.new_array(st, et, E.arr_get(st, s.arr, et))
        return E.deliver(st, ret, SliceV(simp(z3.If(s.ln == 0, z3.IntVal(0), ref)), s.off, s.ln))
    if fn == 'SameMap':
        mt = mapt(E, call)
        a, b = args
        kt = E.T(mt)['key']
        k = z3.Const('qk!%d' % E._ctr, E.sort(kt))
        E._ctr += 1

        def has(m):
            h = z3.Select(E.map_dom(st, m, mt), k)
            return And(m != 0, h) if intval(m) is None else (T_(False) if intval(m) == 0 else h)
        va, vb = z3.Select(E.map_vals(st, a, mt), k), z3.Select(E.map_vals(st, b, mt), k)
        return E.deliver(st, ret, z3.ForAll([k], And(has(a) == has(b), z3.Implies(has(a), va == vb))))
    if fn == 'SameSlice':
        t = mapt(E, call)
        et = E.T(t)['elem']
        a, b = args
        i = z3.Int('q!%d' % E._ctr)
        E._ctr += 1
        ca, cb = E.arr_get(st, a.arr, et), E.arr_get(st, b.arr, et)
        if ca.eq(cb) and a.off.eq(b.off):
            return E.deliver(st, ret, simp(a.ln == b.ln))
        return E.deliver(st, ret, And(a.ln == b.ln, z3.ForAll([i], z3.Implies(And(i >= 0, i < a.ln), z3.Select(ca, addo(a.off, i)) == z3.Select(cb, addo(b.off, i))))))
    if fn == 'Distinct':
        t = mapt(E, call)
        et = E.T(t)['elem']
        a = args[0]
        c = E.arr_get(st, a.arr, et)
        i, j = z3.Ints('q!%d r!%d' % (E._ctr, E._ctr))
        E._ctr += 1
        return E.deliver(st, ret, z3.ForAll([i, j], z3.Implies(And(i >= 0, i < j, j < a.ln), z3.Select(c, addo(a.off, i)) != z3.Select(c, addo(a.off, j)))))
    if fn == 'In':
        t = mapt(E, call, 1)
        et = E.T(t)['elem']
        x, a = args
        c = E.arr_get(st, a.arr, et)
        ex = E.encode(x, et)
        n = intval(a.ln)
        if n is not None and n <= 16:
            return E.deliver(st, ret, simp(Or(*[z3.Select(c, addo(a.off, k)) == ex for k in range(n)])))
        i = z3.Int('q!%d' % E._ctr)
        E._ctr += 1
        return E.deliver(st, ret, z3.Exists([i], And(i >= 0, i < a.ln, z3.Select(c, addo(a.off, i)) == ex)))
    raise Undecided('ghost function ' + fn)


def apply_contract(E, st, fr, call, base, c, args, ret, pos):
    """Replaces a call by the contract of the callee."""
    ap = st.ghost.get('applying')
    if ap is not None and ap[0] == len(st.frames) and ap[1] == base:
        # the subject of the contract: its result is any value satisfying it
        if c['pure']:
            tids = [p[1] for p in call['sig']['params']]
            if len(tids) > len(args):
                tids = tids[1:]
            v = E.pure_result(st, 'ctr:' + base, call, args, [p[1] for p in E.funcs[base]['params']])
        else:
            v = E.havoc_result(st, call, 'ctr')
        st.ghost['apply_result'] = v
        return E.deliver(st, ret, v)
    E.usedcontracts.add(base)
    saved = dict(st.ghost)

    def done(s, val):
        v = s.ghost.get('apply_result')
        s.ghost = dict(saved)
        if v is None:
            raise Undecided('contract without a call of its subject')
        return E.deliver(s, ret, v)
    E.push(st, c['ghost'], args, (), done)
    st.ghost = dict(st.ghost)
    st.ghost['applying'] = (len(st.frames), base)
    st.ghost['apply_result'] = None
    return None


def short(name):
    return name.rsplit('.', 1)[1]


def has_assert(E, name):
    """Whether a contract promises something (otherwise it only restricts calls)."""
    return any(i['op'] == 'call' and i['call'].get('fn') and i['call']['fn'][0] == 'f' and i['call']['fn'][1] == GHOST + '.Assert'
               for b in E.funcs[name]['blocks'] for i in b['i'])


def find_contracts(E, prop=None):
    """Contracts in scope of a property (shared ones are named C00_...)."""
    out = {}
    for name, f in E.funcs.items():
        if not f.get('zz') and '.C' not in name:
            continue
        if 'blocks' not in f or '$' in name:
            continue
        if prop and not short(name).startswith((prop + '_', 'C00_')):
            continue
        subj, pure = None, False
        boxes = {}
        for b in f['blocks']:
            for i in b['i']:
                if i['op'] == 'mkiface' and i['x'][0] == 'f':
                    boxes[i['n']] = i['x'][1]
                if i['op'] == 'call' and i['call'].get('fn') and i['call']['fn'][0] == 'f':
                    n = i['call']['fn'][1]
                    if n == GHOST + '.Contract':
                        a = i['call']['args'][0]
                        subj = boxes.get(a[1])
                        if subj is None:
                            raise Undecided('Contract argument in ' + name)
                    if n == GHOST + '.Pure':
                        pure = True
        if subj:
            if subj.endswith('$thunk') or subj.endswith('$bound'):
                subj = subj.rsplit('$', 1)[0]
            out[subj] = {'ghost': name, 'pure': pure}
    return out
