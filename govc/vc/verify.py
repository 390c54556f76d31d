"""Verifies ghost functions: one symbolic execution per function."""
import time

import z3

from core import *
import engine
from engine import Engine, State, Frame
from engine_exc import Dead
import ghost


def input_state(E, name, init=None):
    f = E.funcs[name]
    st = State()
    if init is not None:
        st.mem = dict(init)
    ins = []
    for i, (pn, pt) in enumerate(f['params']):
        ins.append(E.fresh(st, pt, f'{pn}', inp=True))
    return st, ins


def run(dump, name, mode='prove', timeout=10000, unroll=3, deadline=None, init=None, prop=None):
    E = Engine(dump, mode=mode, timeout=timeout, unroll=unroll)
    E.contracts = ghost.find_contracts(E, prop or ghost.short(name)[:3])
    E.deadline = time.time() + deadline if deadline else None
    err = None
    E.inputs = None
    try:
        mem = E.init_globals(name)
        st, ins = input_state(E, name, mem)
        E.init_terms = [t for _, t in E.init_facts]
        E.inputs = (E.funcs[name]['params'], ins, st.fork())
        subj = [s for s, c in E.contracts.items() if c['ghost'] == name]
        if subj:
            st.ghost['inline'] = (subj[0],)
        E.push(st, name, ins, [], None)
        E.explore(st)
    except Undecided as e:
        err = str(e)
    return E, err


# ------------------------------------------------------------ solver models
def _seqbytes(v):
    if not z3.is_string_value(v):
        return None
    return [min(255, ord(c)) for c in v.as_string()]


def _keys(e, out, depth=0):
    """Keys mentioned by a finite description of a set."""
    if depth > 200:
        return
    if z3.is_store(e):
        _keys(e.arg(0), out, depth + 1)
        out.append(e.arg(1))
    elif z3.is_quantifier(e):
        _lits(e.body(), out, 0)


def _lits(e, out, d):
    if d > 60:
        return
    if z3.is_string_value(e) or z3.is_int_value(e):
        out.append(e)
    for c in e.children():
        _lits(c, out, d + 1)


def decode_model(E, m, st, v, tid, depth=0, hints=()):
    """Turns the model's value of an input into JSON for zzghost's decoder;
    None where the model says nothing usable."""
    t = E.T(tid)
    k = t['k']
    ev = lambda e: m.eval(e, model_completion=True)
    if depth > 8:
        return None
    if k == 'basic':
        if t['info'] & 1:
            return z3.is_true(ev(v))
        if t['info'] & 2:
            r = ev(v)
            return r.as_long() if z3.is_int_value(r) else None
        if t['info'] & 32:
            r = _seqbytes(ev(v))
            return r if r is not None and len(r) < 4000 else None
        return None
    if k == 'slice':
        n = intval(ev(v.ln))
        if n is None or n > 40:
            return None
        out = []
        for i in range(n):
            x = E.decode(None, ev(z3.Select(E.arr_get(st, v.arr, t['elem']), v.off + i)), t['elem'])
            out.append(decode_model(E, m, st, x, t['elem'], depth + 1))
        return out
    if k == 'struct':
        return [decode_model(E, m, st, x, ft, depth + 1) for x, (n, ft, _) in zip(v.vals, t['fields'])]
    if k == 'map':
        r = intval(ev(v))
        if r == 0 or r is None:
            return {'nil': True} if r == 0 else None
        ref = v
        dom = ev(E.map_dom(st, ref, tid))
        ks = []
        _keys(dom, ks)
        ks += list(hints)
        out, seen = [], set()
        for kk in ks:
            if kk.sort() != E.sort(t['key']) or str(kk) in seen:
                continue
            seen.add(str(kk))
            if z3.is_true(ev(z3.Select(dom, kk))):
                val = E.decode(None, ev(z3.Select(E.map_vals(st, ref, tid), kk)), t['elem'])
                out.append([decode_model(E, m, st, E.decode(None, kk, t['key']), t['key'], depth + 1), decode_model(E, m, st, val, t['elem'], depth + 1)])
        return out
    if k == 'ptr':
        r = ev(v) if is_z3(v) else None
        if r is None or intval(r) is None:
            return None
        if intval(r) == 0:
            return {'nil': True}
        return {'p': decode_model(E, m, st, E.load(st, v, t['elem']), t['elem'], depth + 1)}
    if k == 'iface':
        r = ev(v)
        if r.eq(ev(nilI)):
            return {'nil': True}
        return None
    return None


def model_inputs(E, o):
    if o.model is None or E.inputs is None:
        return None
    params, ins, st = E.inputs
    st = st.fork()
    hints = []
    try:
        for d in o.model.decls():
            if d.arity() == 0 and d.range() == z3.StringSort():
                hints.append(o.model[d])
        return [decode_model(E, o.model, st, v, pt, 0, hints) for (pn, pt), v in zip(params, ins)]
    except Exception:
        return None


def job(dump, name, mode, timeout, unroll, deadline, limit=20000, prop=None):
    """One verification job, as a JSON-able result."""
    t0 = time.time()
    try:
        E, err = run(dump, name, mode, timeout, unroll, deadline, prop=prop)
    except Exception as e:   # a crash of the generator decides nothing
        import traceback
        return {'ghost': name, 'mode': mode, 'err': 'generator: ' + repr(e), 'crash': traceback.format_exc()[-1500:], 'obls': [], 'covers': {}, 'assumed': {}, 'inlined': [], 'contracts': [], 'secs': time.time() - t0, 'paths': 0, 'invs': [], 'solver': 0.0}
    obls = []
    for o in E.obls:
        d = {'label': o.label, 'kind': o.kind, 'fn': o.fn, 'pos': o.pos, 'status': o.status, 'backend': o.backend, 'secs': round(o.secs, 3), 'note': o.note}
        if o.status != 'discharged':
            d['model_inputs'] = model_inputs(E, o)
            d['model'] = str(o.model)[:4000] if o.model is not None else None
        obls.append(d)
    return {'ghost': name, 'mode': mode, 'err': err, 'obls': obls, 'covers': dict(E.covers), 'assumed': dict(E.assumed),
            'inlined': sorted(E.inlined), 'contracts': sorted(E.usedcontracts), 'secs': time.time() - t0, 'paths': E.path_count,
            'invs': [str(x)[:200] for x in (E.invs_kept.items() if isinstance(E.invs_kept, dict) else E.invs_kept)][:40], 'solver': E.solver_secs,
            'globals_init': getattr(E, '_initlog', [])[:10]}
