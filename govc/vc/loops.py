"""Loops are cut at their header.

The header state is the entry state with every loop-varying variable and memory
location replaced by a fresh symbol, constrained by an inductive invariant.  The
invariant is the largest subset of a set of candidates that holds on entry and
is preserved by every path of the body (checked with the solver).  Candidates
come from the ghost code (ghost.Inv) and from the shape of the body's paths; a
candidate that is not inductive is simply dropped, so candidates are never
trusted.
"""
import itertools
import os
import time

import z3

from core import *


class HMark:
    pass


DEBUG = bool(os.environ.get('ZZ_DEBUG'))


def comps(v):
    """Scalar components of a phi value."""
    if isinstance(v, SliceV):
        return [v.arr, v.off, v.ln]
    if isinstance(v, StructV) or isinstance(v, Tup) or isinstance(v, ArrV):
        out = []
        for x in v.vals:
            out += comps(x)
        return out
    return [v]


def rebuild(v, it):
    if isinstance(v, SliceV):
        return SliceV(next(it), next(it), next(it))
    if isinstance(v, StructV):
        return StructV([rebuild(x, it) for x in v.vals])
    if isinstance(v, Tup):
        return Tup([rebuild(x, it) for x in v.vals])
    if isinstance(v, ArrV):
        return ArrV([rebuild(x, it) for x in v.vals])
    return next(it)


def same(a, b):
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return a is b


class Header:
    pass


def make_header(E, st0, phis, varying, mod, bound):
    """A fork of st0 with the varying phi components and modified memory havocked."""
    h = st0.fork()
    fr = h.frames[-1]
    H = Header()
    H.syms = {}       # (phi name, comp index) -> const
    for p in phis:
        v0 = fr.env[p['n']]
        cs = comps(v0)
        fresh = None
        out = []
        for i, c in enumerate(cs):
            if (p['n'], i) in varying:
                if not is_z3(c):
                    try:
                        c = E.encode(c, p['t'])
                    except Undecided:
                        raise Undecided(f'loop variable {p["n"]} of unsupported shape')
                k = z3.Const(E.fresh_name(f'h_{p["n"]}_{i}'), c.sort())
                H.syms[(p['n'], i)] = k
                out.append(k)
            else:
                out.append(c)
        fr.env[p['n']] = rebuild(v0, iter(out))
        if isinstance(v0, SliceV):
            s = fr.env[p['n']]
            if is_z3(s.ln) and not z3.is_int_value(s.ln):
                h.assume(And(s.ln >= 0, s.off >= 0, s.arr >= 0, z3.Implies(s.arr == 0, s.ln == 0)))
        for (n, i), k in list(H.syms.items()):
            if n != p['n']:
                continue
            t = E.T(p['t'])
            if t['k'] in ('ptr', 'map', 'chan') or (t['k'] == 'slice' and i == 0):
                h.assume(And(k >= 0, k <= bound))
            elif t['k'] == 'basic' and t['info'] & 2:
                r = E.intrange(p['t'])
                if r:
                    h.assume(And(k >= r[0], k <= r[1]))
            elif t['k'] == 'func':
                raise Undecided('loop-varying function value')
    H.memsyms = {}
    for key, how in mod.items():
        if key[0] in ('it', 'itn'):
            old = h.mem[key]
            k = z3.Const(E.fresh_name(f'h_{key[0]}{key[1]}'), old.sort())
            h.mem[key] = k
            h.wlog.append((key, None))
            H.memsyms[key] = k
            if key[0] == 'itn':
                h.assume(k >= 0)
            continue
        if key[0] == 'g':
            h.mem[key] = E.fresh(h, how, 'h_g')
            h.wlog.append((key, how))
            continue
        c = h.mem[key]
        base = z3.Const(E.fresh_name('h_mem'), c.base.sort())
        log = list(c.log)
        if how == 'all':
            log.append((('hv', -1), base))
            h.wlog.append((key, 'all'))
        else:
            refs, region = how
            if region:
                log.append((('hv', bound), base))
                h.wlog.append((key, ('region', bound)))
            for r in refs:
                val = simp(z3.Select(base, r))
                if key[0] in ('f', 'o'):
                    val = E.decode(h, val, c.tid)
                log.append((r, val))
                h.wlog.append((key, r))
        from engine import Cell_new
        h.mem[key] = Cell_new(c, log)
        H.memsyms[key] = base
        if key[0] == 'ml':
            x = z3.Int(E.fresh_name('m'))
            h.assume(z3.ForAll([x], z3.Select(base, x) >= 0))
    H.st = h
    H.npc = len(h.pc)
    H.nw = len(h.wlog)
    return H


def classify(E, backs, H, mod, bound, loopsyms):
    """Modified memory of the body: key -> 'all' | (invariant refs, region?)."""
    new = dict(mod)
    for s in backs:
        for key, ref in s.wlog[H.nw:]:
            if key[0] in ('it', 'itn'):
                if key in H.st.mem:
                    new[key] = 'it'
                    if key[0] == 'it':
                        new[('itn', key[1])] = 'it'
                continue
            if key[0] == 'g':
                new[key] = ref
                continue
            if key not in H.st.mem:
                # cell first touched inside the loop: bring it in unhavocked first
                c = s.mem[key]
                from engine import Cell_new
                H.missing[key] = Cell_new(c, ())
            cur = new.get(key, ((), False))
            if cur == 'all':
                continue
            refs, region = cur
            if isinstance(ref, str) and ref == 'all':
                new[key] = 'all'
                continue
            if isinstance(ref, tuple):
                if ref[1] >= bound:
                    new[key] = (refs, True)
                else:
                    new[key] = 'all'
                continue
            v = intval(ref)
            if v is not None and v > bound:
                new[key] = (refs, True)
                continue
            names = free_consts(ref)
            if any(not old_symbol(n, loopsyms) for n in names):
                new[key] = 'all'
                continue
            if not any(r.eq(ref) for r in refs):
                refs = refs + (ref,)
            new[key] = (refs, region)
    return new


def old_symbol(n, loopsyms):
    return n in loopsyms


def cut(E, st0, b, phis, body):
    fr0 = st0.frames[-1]
    depth = len(st0.frames)
    uid = fr0.uid
    bound = E.next_ref
    oldsyms = set()
    for t in st0.terms():
        oldsyms |= set(free_consts(t))

    class Old:
        def __contains__(self, n):
            if n.startswith('in!') or n in oldsyms:
                return True
            if '!' in n and '@' in n:
                try:
                    return int(n.rsplit('@', 1)[0].rsplit('!', 1)[1]) <= ctr0
                except ValueError:
                    return False
            return n in ('nil!iface',) or n.startswith('pure:')
    ctr0 = E._ctr
    old = Old()

    def stop(s, fr):
        if len(s.frames) < depth:
            return True
        if len(s.frames) == depth and fr.uid == uid and fr.block not in body:
            return True
        return False

    varying = set()
    mod = {}
    saves = E.suppress
    save_cover = E.covers
    for rnd in range(16):
        H = make_header(E, st0, phis, varying, mod, bound)
        H.missing = {}
        h = H.st
        hf = h.frames[-1]
        hf.loops[b] = 'discover'
        backs = []
        E.collect[(uid, b)] = backs
        E.suppress += 1
        nr = E.next_ref
        save_end = E.on_end
        E.on_end = lambda s: None
        try:
            E.explore(h.fork(), stop)
        finally:
            E.suppress = saves
            E.on_end = save_end
            E.collect.pop((uid, b), None)
        nv = set(varying)
        for s in backs:
            bf = s.frames[-1]
            for p in phis:
                hv, bv = comps(hf.env[p['n']]), comps(bf.env[p['n']])
                if len(hv) != len(bv) or type(hf.env[p['n']]) is not type(bf.env[p['n']]) and not (is_z3(hf.env[p['n']]) and is_z3(bf.env[p['n']])):
                    # shapes differ (interior pointer against reference ...)
                    raise Undecided(f'loop variable {p["n"]} changes shape')
                for i, (x, y) in enumerate(zip(hv, bv)):
                    if not same(x, y) and (p['n'], i) not in nv:
                        nv.add((p['n'], i))
        nm = classify(E, backs, H, mod, bound, old)
        if H.missing:
            for k, c in H.missing.items():
                if k not in st0.mem:
                    st0.mem[k] = c
        if nv == varying and nm == mod:
            break
        varying, mod = nv, nm
    else:
        raise Undecided('loop effects did not stabilise')

    if not backs:
        # the body never comes back: at most one iteration
        H.st.frames[-1].loops[b] = 'final'
        return [H.st]

    cands = candidates(E, st0, H, phis, backs, body, old, b)
    kept = houdini(E, st0, H, cands, backs, fr0.name, b, bound)
    h = H.st
    names = {c.name for c in kept}
    kept = [c for c in kept if c.name + ' (direct)' not in names]   # implied, and costly
    for c in kept:
        h.assume(c.at_header)
    h.frames[-1].loops[b] = 'final'
    if not E.suppress:
        for c in kept:
            E.note_invariant(fr0.name, b, c)
    return [h]


class Cand:
    __slots__ = ('name', 'fn', 'at_header', 'at_entry', 'at_back', 'user')

    def __init__(self, name, fn, user=False):
        self.name, self.fn, self.user = name, fn, user


def any_ref_above(t, bound):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_int_value(x):
            v = x.as_long()
            if bound < v < bound + 10**6:
                return True
            continue
        if z3.is_app(x):
            todo += x.children()
    return False


def houdini(E, st0, H, cands, backs, fname, b, bound):
    pre = H.npc
    good = []
    nf = len(H.st.pc)
    for c in cands:
        try:
            c.at_entry = c.fn(st0, True)
            c.at_header = c.fn(H.st, False)
            c.at_back = [c.fn(s, False) for s in backs]
        except (Undecided, Dead_) as e:
            if c.user and DEBUG:
                print('user invariant not evaluated:', e)
            continue
        if any_ref_above(c.at_header, bound):
            continue      # speaks about an object of one particular iteration
        good.append(c)
    # initiation
    base = st0.terms()
    keep = []
    # facts that came with the evaluation of the candidates
    hfacts = [t for k, t in H.st.pc[nf:]]
    for c in good:
        g = simp(c.at_entry)
        if z3.is_true(g):
            keep.append(c)
            continue
        if z3.is_false(g):
            continue
        r, _ = E.check(base + [z3.Not(g)], E.inv_timeout)
        if r == z3.unsat:
            keep.append(c)
        elif c.user and DEBUG:
            print('user invariant not initial:', r, g)
    # consecution
    changed = True
    while changed and keep:
        changed = False
        hyp = hfacts + [c.at_header for c in keep]
        for c in list(keep):
            ok = True
            for i, s in enumerate(backs):
                g = simp(c.at_back[i])
                if z3.is_true(g):
                    continue
                if z3.is_false(g):
                    r = z3.sat
                    r, _ = E.check(s.terms() + hyp, E.inv_timeout)
                else:
                    r, sv = E.check(s.terms() + hyp + [z3.Not(g)], E.inv_timeout)
                    if r == z3.unknown and c.user:
                        r2 = E.sliced(s.terms() + hyp + [z3.Not(g)], g)
                        if r2 != 'unsat':
                            r2 = E.second_opinion(sv)
                        if r2 == 'unsat':
                            r = z3.unsat
                if r != z3.unsat:
                    ok = False
                    break
            if not ok:
                if c.user and DEBUG:
                    print('user invariant not inductive:', r, i, g, ['%s' % x.name for x in keep])
                keep.remove(c)
                changed = True
                if not c.user:
                    hyp = hfacts + [x.at_header for x in keep]
                else:
                    hyp = hfacts + [x.at_header for x in keep]
        if changed:
            continue
    return keep


from engine_exc import Dead as Dead_   # noqa: E402


def pcond(s, npc, old, allow):
    """Conjuncts of the path condition since the header over old symbols and
    the symbols in `allow`."""
    out = []
    for k, t in s.pc[npc:]:
        for c in (t.children() if z3.is_and(t) else [t]):
            names = free_consts(c)
            if all(n in old or n in allow for n in names):
                out.append(c)
    return out


def conjuncts(t):
    if z3.is_true(t):
        return []
    if z3.is_and(t):
        return [x for c in t.children() for x in conjuncts(c)]
    return [t]


def disj(conds):
    """A compact form of a disjunction of conjunctions."""
    sets = []
    for c in conds:
        c = simp(c)
        if z3.is_false(c):
            continue
        sets.append({x.get_id(): x for x in conjuncts(c)})
    if not sets:
        return T_(False)

    def neg(x):
        return simp(Not(x)).get_id()
    changed = True
    while changed:
        changed = False
        # subsumption: a weaker conjunction absorbs a stronger one
        out = []
        for i, a in enumerate(sets):
            if any((set(b) < set(a)) or (set(b) == set(a) and j < i) for j, b in enumerate(sets) if j != i):
                changed = True
                continue
            out.append(a)
        sets = out
        for i, a in enumerate(sets):
            for j, b in enumerate(sets):
                if j <= i:
                    continue
                da, db = set(a) - set(b), set(b) - set(a)
                if len(da) == 1 and len(db) == 1:
                    x, y = a[next(iter(da))], b[next(iter(db))]
                    if neg(x) == simp(y).get_id() or simp(x).get_id() == neg(y):
                        m = {k: v for k, v in a.items() if k in b}
                        sets = [c for k, c in enumerate(sets) if k not in (i, j)] + [m]
                        changed = True
                        break
            if changed:
                break
    common = set(sets[0])
    for b in sets[1:]:
        common &= set(b)
    cm = [sets[0][k] for k in sorted(common)]
    if any(set(b) == common for b in sets):
        return And(*cm)
    return And(*cm, Or(*[And(*[b[k] for k in sorted(b) if k not in common]) for b in sets]))


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def candidates(E, st0, H, phis, backs, body, old, b):
    fr0 = st0.frames[-1]
    hf = H.st.frames[-1]
    name = fr0.name
    out = []

    # ---- scalar components
    class Comp:
        pass
    cs = []
    for p in phis:
        v0, vh = comps(fr0.env[p['n']]), comps(hf.env[p['n']])
        for i in range(len(vh)):
            if (p['n'], i) in H.syms:
                c = Comp()
                c.n, c.i, c.t = p['n'], i, p['t']
                c.sym = H.syms[(p['n'], i)]
                c.entry = v0[i] if is_z3(v0[i]) else E.encode(v0[i], p['t'])
                c.back = []
                for s in backs:
                    x = comps(s.frames[-1].env[p['n']])[i]
                    c.back.append(x if is_z3(x) else E.encode(x, p['t']))
                cs.append(c)

    def get(s, c):
        x = comps(s.frames[len(st0.frames) - 1].env[c.n])[c.i]
        return x if is_z3(x) else E.encode(x, c.t)

    def add(nm, fn):
        out.append(Cand(nm, fn))

    def is_ref(c):
        k = E.kind(c.t)
        return k in ('ptr', 'map', 'chan', 'func') or k == 'slice' and c.i == 0 or k not in ('basic', 'slice')
    # references are only ever compared for equality: objects allocated by earlier
    # iterations stand for arbitrary ones, so their numbers mean nothing
    ints = [c for c in cs if c.sym.sort() == z3.IntSort() and not is_ref(c)]
    for c in ints:
        c.deltas = []
        for v in c.back:
            d = simp(v - c.sym)
            c.deltas.append(intval(d))
        add(f'{c.n}.{c.i} >= entry', lambda s, e, c=c: get(s, c) >= c.entry)
        add(f'{c.n}.{c.i} <= entry', lambda s, e, c=c: get(s, c) <= c.entry)
    for c in cs:
        if c.sym.sort() != z3.IntSort() or E.kind(c.t) not in ('basic',):
            add(f'{c.n}.{c.i} == entry', lambda s, e, c=c: get(s, c) == c.entry)
        if E.kind(c.t) in ('ptr', 'map'):
            add(f'{c.n}.{c.i} != nil', lambda s, e, c=c: get(s, c) != 0)
        if E.kind(c.t) == 'iface':
            add(f'{c.n}.{c.i} != nil', lambda s, e, c=c: get(s, c) != nilI)
        if E.kind(c.t) == 'iface':
            add(f'{c.n}.{c.i} == nil', lambda s, e, c=c: get(s, c) == nilI)
    idx = None
    for x in ints:
        if x.deltas and all(d == x.deltas[0] for d in x.deltas) and x.deltas[0] not in (None, 0):
            if x.deltas[0] == 1 and idx is None and E.kind(x.t) == 'basic':
                idx = x
            for y in ints:
                if y is x:
                    continue
                if y.deltas and all(d is not None for d in y.deltas):
                    if all(d == y.deltas[0] for d in y.deltas):
                        add(f'{y.n}.{y.i} tracks {x.n}.{x.i}', lambda s, e, x=x, y=y: (get(s, y) - y.entry) * x.deltas[0] == (get(s, x) - x.entry) * y.deltas[0])
                    elif x.deltas[0] == 1 and all(0 <= d <= 1 for d in y.deltas):
                        add(f'{y.n}.{y.i} at most {x.n}.{x.i}', lambda s, e, x=x, y=y: get(s, y) - y.entry <= get(s, x) - x.entry)
    # sums that stay constant (suffix slices: offset + length)
    for x, y in itertools.combinations(ints, 2):
        if all(z3.is_int_value(simp(bx + by - x.sym - y.sym)) and simp(bx + by - x.sym - y.sym).as_long() == 0 for bx, by in zip(x.back, y.back)):
            add(f'{x.n}.{x.i}+{y.n}.{y.i} constant', lambda s, e, x=x, y=y: get(s, x) + get(s, y) == x.entry + y.entry)

    # ---- string iteration and map iteration
    for key, sym in H.memsyms.items():
        if key[0] == 'itn':
            it = find_iter(H.st, key[1])
            if it is None:
                continue
            if it.kind == 'str':
                add('range position within string', lambda s, e, key=key, it=it: And(s.mem[key] >= 0, s.mem[key] <= z3.Length(it.x)))
            else:
                add('visited count', lambda s, e, key=key: s.mem[key] >= 0)
        if key[0] == 'it':
            it = find_iter(H.st, key[1])
            if it is None:
                continue

            def fnv(s, e, key=key, it=it):
                t = E.T(it.tid)
                k = z3.Const('k!vis', E.sort(t['key']))
                return z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), z3.Select(E.map_dom(s, it.x, it.tid), k)))
            add('visited keys are keys', fnv)

    # ---- search: what held in every completed iteration
    if idx is not None:
        step_syms = {idx.sym.decl().name()}
        shift = 1 if intval(simp(idx.entry)) == -1 else 0

        def past(s, body, ex=False, vn='j!loop'):
            """body(idx) for all (some) completed iterations, stated over the
            position the iteration works on (trigger-friendly)."""
            p = get(s, idx)
            j = z3.Int(vn)
            bd = simp(subst(body, [(idx.sym, j - shift if shift else j)]))
            g_ = And(j >= simp(idx.entry + shift), j < simp(p + shift))
            return z3.Exists([j], And(g_, bd)) if ex else z3.ForAll([j], z3.Implies(g_, bd))
        conds = [And(*pcond(s, H.npc, old, step_syms)) for s in backs]
        cont = disj(conds)
        if not z3.is_true(cont):
            def prev(s, e, cont=cont):
                p = get(s, idx)
                return Or(p == idx.entry, subst(cont, [(idx.sym, p - 1)]))
            add('last iteration continued', prev)
            # individual bounds
            for cj in conj_common(conds):
                add('last iteration: ' + str(cj)[:60], lambda s, e, cj=cj: Or(get(s, idx) == idx.entry, subst(cj, [(idx.sym, get(s, idx) - 1)])))
            add('every completed iteration continued', lambda s, e, cont=cont: past(s, cont))
        # boolean flags
        for c in cs:
            if c.sym.sort() != z3.BoolSort():
                continue
            t_on, t_same, okflag = [], [], True
            allow = step_syms | {c.sym.decl().name()}
            for s, v in zip(backs, c.back):
                cond = And(*pcond(s, H.npc, old, step_syms))
                if v.eq(c.sym):
                    t_same.append(cond)
                else:
                    t_on.append((simp(v), cond))
            for val in (True, False):
                sets = [cd for v, cd in t_on if not (z3.is_true(v) if not val else z3.is_false(v))]
                others = t_same + [cd for v, cd in t_on if (z3.is_false(v) if val else z3.is_true(v))]

                def flag(s, e, c=c, val=val, others=others):
                    cur = get(s, c)
                    unset = Not(cur) if val else cur
                    return z3.Implies(unset, past(s, disj(others)))

                def flag2(s, e, c=c, val=val, sets=sets, t_on=t_on):
                    parts = []
                    for v, cd in t_on:
                        vv = v if val else Not(v)
                        parts.append(And(cd, vv))
                    cur = get(s, c)
                    st_ = cur if val else Not(cur)
                    ini = c.entry if val else Not(c.entry)
                    return z3.Implies(st_, Or(ini, past(s, disj(parts), True)))
                add(f'flag {c.n} {val} unset', flag)
                add(f'flag {c.n} {val} set', flag2)

        # small enumerations: values and what each says about the past
        for c in ints:
            if c is idx or E.kind(c.t) != 'basic':
                continue
            vals = {}
            okc = True
            for v in c.back + [c.entry]:
                v = simp(v)
                if z3.is_int_value(v):
                    vals[v.as_long()] = v
                elif not v.eq(c.sym):
                    okc = False
            if not okc or not vals or len(vals) > 6:
                continue
            vs = list(vals.values())
            extra = [] if z3.is_int_value(simp(c.entry)) else [c.entry]
            add(f'{c.n} enumerated', lambda s, e, c=c, vs=vs, extra=extra: Or(*[get(s, c) == v for v in vs + extra]))
            for v in vs:
                add(f'{c.n} != {v}', lambda s, e, c=c, v=v: get(s, c) != v)
                may_v = []
                not_v = []
                for s_, b_ in zip(backs, c.back):
                    b_ = simp(b_)
                    cd = And(*pcond(s_, H.npc, old, step_syms))
                    if b_.eq(c.sym) or b_.eq(v):
                        may_v.append(cd)
                    if b_.eq(c.sym) or not b_.eq(v):
                        not_v.append(cd)

                def stays(s, e, c=c, v=v, may_v=may_v):
                    return z3.Implies(get(s, c) == v, past(s, disj(may_v)))

                def never(s, e, c=c, v=v, not_v=not_v):
                    return z3.Implies(get(s, c) != v, past(s, disj(not_v)))
                add(f'{c.n} == {v} since ever', stays)
                add(f'{c.n} != {v} since ever', never)

        # ---- element-wise construction: out = append(out, f(i))
        for p in phis:
            if E.kind(p['t']) != 'slice' or not any((p['n'], i) in H.syms for i in range(3)):
                continue
            build_slice(E, st0, H, p, backs, idx, get, old, step_syms, add, past)
        build_maps(E, st0, H, backs, idx, get, old, step_syms, add, past)
        fill_arrays(E, st0, H, backs, idx, get, old, step_syms, add, past, shift)
    else:
        vis = [k for k in H.memsyms if k[0] == 'it']
        if len(vis) == 1:
            map_iter(E, st0, H, vis[0], backs, old, cs, get, add, phis)

    # ---- generic: conditions of the previous iteration for other step sizes
    for x in ints:
        if x is idx or not x.deltas or any(d is None for d in x.deltas) or len(set(x.deltas)) != 1 or x.deltas[0] == 0:
            continue
        sy = {x.sym.decl().name()}
        for cj in conj_common([And(*pcond(s, H.npc, old, sy)) for s in backs]):
            add('last iteration: ' + str(cj)[:60], lambda s, e, cj=cj, x=x: Or(get(s, x) == x.entry, subst(cj, [(x.sym, get(s, x) - x.deltas[0])])))

    # ---- ghost invariants
    users = []
    for clo in st0.ghost['invs']:
        users += user_cands(E, st0, H, clo, phis, idx)
    return out + users


def conj_common(conds):
    sets = []
    for c in conds:
        sets.append({x.get_id(): x for x in (c.children() if z3.is_and(c) else [c])})
    if not sets:
        return []
    ids = set(sets[0])
    for s in sets[1:]:
        ids &= set(s)
    return [sets[0][i] for i in ids if not z3.is_true(sets[0][i])]


def invert(x, k, el):
    """The key an element x(k) was made of, as a term over the element."""
    if x.eq(k):
        return el
    if z3.is_app(x) and x.sort().kind() == z3.Z3_DATATYPE_SORT and x.num_args():
        srt = x.sort()
        for ci in range(srt.num_constructors()):
            if x.decl().eq(srt.constructor(ci)):
                for ai in range(x.num_args()):
                    if x.arg(ai).eq(k):
                        return srt.accessor(ci, ai)(el)
    return None


def find_iter(st, uid):
    for fr in st.frames:
        for v in fr.env.values():
            if isinstance(v, IterV) and v.uid == uid:
                return v
    return None


def build_slice(E, st0, H, p, backs, idx, get, old, step_syms, add, past):
    D = len(st0.frames) - 1
    et = E.T(p['t'])['elem']
    h0 = H.st.frames[-1].env[p['n']]
    e0 = st0.frames[-1].env[p['n']]
    elems = []
    for s in backs:
        v = s.frames[D].env[p['n']]
        grown = intval(simp(v.ln - h0.ln))
        if grown == 0:
            elems.append((s, None))
            continue
        if grown != 1:
            return
        x = simp(z3.Select(E.arr_get(s, v.arr, et), simp(addo(v.off, h0.ln))))
        elems.append((s, x))
    okx = lambda x: all(n in old or n in step_syms for n in free_consts(x))
    if any(x is not None and not okx(x) for s, x in elems):
        # elements that mention values computed in the iteration: no closed form
        return
    cur = lambda s: s.frames[D].env[p['n']]

    def at(s, i):
        v = cur(s)
        return z3.Select(E.arr_get(s, v.arr, et), addo(v.off, i))

    if all(x is not None for s, x in elems):
        def pointwise2(s, e):
            j = z3.Int('j!bs')
            n = get(s, idx)
            parts = []
            for bs, x in elems:
                cond = And(*pcond(bs, H.npc, old, step_syms))
                parts.append(And(cond, at(s, j) == x) if len(elems) > 1 else at(s, j) == x)
            bd = simp(subst(disj(parts), [(idx.sym, j - e0.ln + idx.entry)]))
            return z3.ForAll([j], z3.Implies(And(j >= e0.ln, j < e0.ln + n - idx.entry), bd))
        add(f'{p["n"]} elementwise by position', pointwise2)
    # membership both ways
    def every_in(s, e):
        j, i = z3.Int('j!bs'), z3.Int('i!bs')
        n = get(s, idx)
        parts = []
        for bs, x in elems:
            cond = And(*pcond(bs, H.npc, old, step_syms))
            if x is None:
                parts.append(cond)
            else:
                parts.append(And(cond, z3.Exists([i], And(i >= e0.ln, i < cur(s).ln, at(s, i) == x))))
        return past(s, disj(parts), vn='j!bs')

    def only_in(s, e):
        j, i = z3.Int('j!bs'), z3.Int('i!bs')
        n = get(s, idx)
        parts = []
        for bs, x in elems:
            if x is not None:
                cond = And(*pcond(bs, H.npc, old, step_syms))
                parts.append(And(cond, at(s, i) == x))
        return z3.ForAll([i], z3.Implies(And(i >= e0.ln, i < cur(s).ln), past(s, disj(parts), True, 'j!bs')))

    def only_in_pred(s, e):
        # predicate-only version, without the index witness
        i = z3.Int('i!bs')
        parts = []
        for bs, x in elems:
            if x is not None:
                for c in pcond(bs, H.npc, old, step_syms):
                    pass
        raise Undecided('n/a')
    if len(elems) > 1:
        add(f'{p["n"]} holds every selected element', every_in)
        add(f'{p["n"]} holds only selected elements', only_in)

    def prefix(s, e):
        j = z3.Int('j!bs')
        return z3.ForAll([j], z3.Implies(And(j >= 0, j < e0.ln), at(s, j) == z3.Select(E.arr_get(st0, e0.arr, et), addo(e0.off, j))))
    if intval(e0.ln) != 0:
        add(f'{p["n"]} prefix unchanged', prefix)


def fill_arrays(E, st0, H, backs, idx, get, old, step_syms, add, past, shift):
    """Arrays filled by position: a[off+i] = v(i)."""
    for key in list(H.st.mem):
        if key[0] != 'e':
            continue
        hav = {w[1].get_id(): w[1] for w in H.st.wlog if w[0] == key and is_z3(w[1])}
        for ref in hav.values():
            if any(n not in old for n in free_consts(ref)):
                continue
            arr = lambda s, ref=ref, key=key: E.cread(s, s.mem[key], ref, lambda t: t)
            h = arr(H.st)
            info, ok = [], True
            for s in backs:
                ch = store_chain(simp(arr(s)), simp(h))
                if ch is None or len(ch) > 1 or any(n not in old and n not in step_syms for k, v in ch for x in (k, v) for n in free_consts(x)):
                    ok = False
                    break
                info.append((s, ch[0] if ch else None))
            ixs = {simp(x[0] - idx.sym) for s, x in info if x}
            if not ok or len(ixs) != 1:
                continue
            base = list(ixs)[0]          # the slot is idx + base
            if idx.sym.decl().name() in free_consts(base):
                continue
            j = z3.Int('j!fa')

            def filled(s, e, info=info, arr=arr, base=base):
                n = get(s, idx)
                parts = []
                for bs, x in info:
                    cond = And(*pcond(bs, H.npc, old, step_syms))
                    el = z3.Select(arr(s), j)
                    was = z3.Select(arr(st0), j)
                    parts.append(And(cond, el == (x[1] if x else was)))
                bd = simp(subst(disj(parts) if len(parts) > 1 else parts[0], [(idx.sym, j - base)]))
                return z3.ForAll([j], z3.Implies(And(j >= idx.entry + base, j < n + base), bd))

            def rest(s, e, arr=arr, base=base):
                n = get(s, idx)
                return z3.ForAll([j], z3.Implies(Or(j < idx.entry + base, j >= n + base), z3.Select(arr(s), j) == z3.Select(arr(st0), j)))
            add('array filled by position', filled)
            add('array unchanged elsewhere', rest)


def map_writes(E, H, s, key):
    """Keys stored into map domain cell `key` at one back state, per map ref."""
    hv, bv = H.st.mem.get(key), s.mem.get(key)
    return hv, bv


def store_chain(new, base):
    """[(key, value)] such that new == Store*(base, ...), or None."""
    out = []
    t = new
    for _ in range(12):
        if t.eq(base):
            return list(reversed(out))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            out.append((t.arg(1), t.arg(2)))
            t = t.arg(0)
            continue
        return None
    return None


def build_maps(E, st0, H, backs, idx, get, old, step_syms, add, past):
    """Maps filled by the loop: m[k(i)] = v(i)."""
    for key, sym in H.memsyms.items():
        if key[0] != 'md':
            continue
        refs = [r for r, _ in H.st.mem[key].log if not isinstance(r, tuple)]
        hav = {w[1].get_id(): w[1] for w in H.st.wlog if w[0] == key and is_z3(w[1])}
        for ref in hav.values():
            info = []
            ok = True
            hd = E.cread(H.st, H.st.mem[key], ref, lambda t: t)
            for s in backs:
                nd = E.cread(s, s.mem[key], ref, lambda t: t)
                ch = store_chain(simp(nd), simp(hd))
                if ch is None or len(ch) > 1:
                    ok = False
                    break
                if ch and not z3.is_true(ch[0][1]):
                    ok = False
                    break
                k = ch[0][0] if ch else None
                if k is not None and not all(n in old or n in step_syms for n in free_consts(k)):
                    ok = False
                    break
                info.append((s, k))
            if not ok:
                continue
            ks = sym.sort().range().domain() if False else hd.sort().domain()
            dom = lambda s, ref=ref, key=key: E.cread(s, s.mem[key], ref, lambda t: t)

            def every_key(s, e, info=info, dom=dom):
                j = z3.Int('j!bm')
                n = get(s, idx)
                parts = []
                for bs, k in info:
                    cond = And(*pcond(bs, H.npc, old, step_syms))
                    parts.append(cond if k is None else And(cond, z3.Select(dom(s), k)))
                return past(s, disj(parts), vn='j!bm')

            def only_key(s, e, info=info, dom=dom, ks=ks, ref=ref, key=key):
                j = z3.Int('j!bm')
                x = z3.Const('k!bm', ks)
                n = get(s, idx)
                parts = []
                for bs, k in info:
                    if k is not None:
                        cond = And(*pcond(bs, H.npc, old, step_syms))
                        parts.append(And(cond, x == k))
                e0 = E.cread(st0, st0.mem[key], ref, lambda t: t)
                return z3.ForAll([x], z3.Implies(z3.Select(dom(s), x), Or(z3.Select(e0, x), past(s, disj(parts), True, 'j!bm'))))

            def grows(s, e, dom=dom, ks=ks, ref=ref, key=key):
                x = z3.Const('k!bm', ks)
                e0 = E.cread(st0, st0.mem[key], ref, lambda t: t)
                return z3.ForAll([x], z3.Implies(z3.Select(e0, x), z3.Select(dom(s), x)))
            add('map holds every stored key', every_key)
            add('map holds only stored keys', only_key)
            add('map only grows', grows)


def map_iter(E, st0, H, key, backs, old, cs, get, add, phis):
    it = find_iter(H.st, key[1])
    if it is None or it.kind != 'map':
        return
    t = E.T(it.tid)
    ks = E.sort(t['key'])
    seen = H.memsyms[key]
    # the key of this iteration: the argument of the store on `seen`
    info = []
    for s in backs:
        ch = store_chain(s.mem[key], seen)
        if not ch or len(ch) != 1:
            return
        info.append((s, ch[0][0]))
    k = z3.Const('k!mi', ks)

    def cond_at(s, key_term):
        names = {key_term.decl().name()} if key_term.num_args() == 0 else set()
        cj = [c for c in pcond(s, H.npc, old, names)]
        return subst(And(*cj), [(key_term, k)]), names
    parts = [cond_at(s, kt)[0] for s, kt in info]
    cont = disj(parts)
    if not z3.is_true(cont):
        add('every visited key continued', lambda s, e: z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), cont)))
    for c in cs:
        if c.sym.sort() != z3.BoolSort():
            continue
        on = [(simp(v), cond_at(s, kt)[0]) for (s, kt), v in zip(info, c.back)]
        for val in (True, False):
            others = [cd for v, cd in on if v.eq(c.sym) or (z3.is_false(v) if val else z3.is_true(v))]
            add(f'flag {c.n} {val} (map)', lambda s, e, c=c, val=val, others=others: z3.Implies(
                Not(get(s, c)) if val else get(s, c), z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), Or(*others) if others else T_(False)))))
            sets = [And(cd, v if val else Not(v)) for v, cd in on if not v.eq(c.sym)]
            add(f'flag {c.n} {val} set (map)', lambda s, e, c=c, val=val, sets=sets: z3.Implies(
                get(s, c) if val else Not(get(s, c)),
                Or(c.entry if val else Not(c.entry), z3.Exists([k], And(z3.Select(s.mem[key], k), Or(*sets) if sets else T_(False))))))
    nkey = ('itn', key[1])
    for c in cs:
        if c.sym.sort() != z3.IntSort():
            continue
        ds = [intval(simp(v - c.sym)) for v in c.back]
        if ds and None not in ds:
            if len(set(ds)) == 1:
                add(f'{c.n} counts visited keys', lambda s, e, c=c, d=ds[0]: get(s, c) - c.entry == d * s.mem[nkey])
            elif set(ds) <= {0, 1}:
                add(f'{c.n} at most visited keys', lambda s, e, c=c: get(s, c) - c.entry <= s.mem[nkey])
    # slices filled from the map
    D = len(st0.frames) - 1
    for p in phis:
        if E.kind(p['t']) != 'slice' or (p['n'], 2) not in H.syms:
            continue
        et = E.T(p['t'])['elem']
        h0 = H.st.frames[-1].env[p['n']]
        e0 = st0.frames[-1].env[p['n']]
        elems = []
        for (s, kt), part in zip(info, parts):
            v = s.frames[D].env[p['n']]
            grown = intval(simp(v.ln - h0.ln))
            names = {kt.decl().name()} if kt.num_args() == 0 else set()
            x = None
            if grown == 1:
                x = simp(z3.Select(E.arr_get(s, v.arr, et), simp(addo(v.off, h0.ln))))
                if not all(n in old or n in names for n in free_consts(x)):
                    elems = None
                    break
                x = subst(x, [(kt, k)])
            elif grown != 0:
                elems = None
                break
            elems.append((part, x))
        if not elems:
            continue
        cur = lambda s, p=p: s.frames[D].env[p['n']]
        at = lambda s, i, cur=cur, et=et: z3.Select(E.arr_get(s, cur(s).arr, et), addo(cur(s).off, i))

        def key_listed(s, e, elems=elems, cur=cur, at=at, e0=e0):
            i = z3.Int('i!mi')
            ps = [part if x is None else And(part, z3.Exists([i], And(i >= e0.ln, i < cur(s).ln, at(s, i) == x))) for part, x in elems]
            return z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), Or(*ps)))

        def only_keys(s, e, elems=elems, cur=cur, at=at, e0=e0):
            i = z3.Int('i!mi')
            ps = [And(part, at(s, i) == x) for part, x in elems if x is not None]
            return z3.ForAll([i], z3.Implies(And(i >= e0.ln, i < cur(s).ln), z3.Exists([k], And(z3.Select(s.mem[key], k), Or(*ps)))))

        def direct(s, e, elems=elems, cur=cur, at=at, e0=e0):
            # the key can be read off the element
            i = z3.Int('i!mi')
            ps = []
            for part, x in elems:
                if x is None:
                    continue
                inv = invert(x, k, at(s, i))
                if inv is None:
                    raise Undecided('n/a')
                ps.append(And(subst(part, [(k, inv)]), z3.Select(s.mem[key], inv), at(s, i) == subst(x, [(k, inv)])))
            return z3.ForAll([i], z3.Implies(And(i >= e0.ln, i < cur(s).ln), Or(*ps)))

        def distinct(s, e, elems=elems, cur=cur, at=at, e0=e0):
            i, j = z3.Int('i!mi'), z3.Int('j!mi')
            a, b = set(), set()
            for part, x in elems:
                if x is not None and invert(x, k, at(s, i)) is None:
                    raise Undecided('n/a')
            return z3.ForAll([i, j], z3.Implies(And(i >= e0.ln, i < j, j < cur(s).ln), at(s, i) != at(s, j)))
        add(f'{p["n"]} lists every visited key', key_listed)
        add(f'{p["n"]} lists only visited keys', only_keys)
        add(f'{p["n"]} lists only visited keys (direct)', direct)
        add(f'{p["n"]} lists no key twice', distinct)
    # other maps filled from this one: out[k] = v(k)
    for mk, sym in H.memsyms.items():
        if mk[0] != 'md':
            continue
        hav = {w[1].get_id(): w[1] for w in H.st.wlog if w[0] == mk and is_z3(w[1])}
        for ref in hav.values():
            hd = E.cread(H.st, H.st.mem[mk], ref, lambda t: t)
            pairs = []
            ok = True
            vkey = ('mv', mk[1])
            for (s, kt), part in zip(info, parts):
                ch = store_chain(simp(E.cread(s, s.mem[mk], ref, lambda t: t)), simp(hd))
                if ch is None or len(ch) > 1 or (ch and not z3.is_true(ch[0][1])):
                    ok = False
                    break
                vch = None
                if vkey in H.memsyms:
                    hv = E.cread(H.st, H.st.mem[vkey], ref, lambda t: t)
                    vch = store_chain(simp(E.cread(s, s.mem[vkey], ref, lambda t: t)), simp(hv))
                names = {kt.decl().name()} if kt.num_args() == 0 else set()
                kk = vv = None
                if ch:
                    kk = ch[0][0]
                    if not all(n in old or n in names for n in free_consts(kk)):
                        ok = False
                        break
                    kk = subst(kk, [(kt, k)])
                    if vch and len(vch) == 1:
                        vv = vch[0][1]
                        if not all(n in old or n in names for n in free_consts(vv)):
                            vv = None
                        else:
                            vv = subst(vv, [(kt, k)])
                pairs.append((part, kk, vv))
            if not ok:
                continue
            dom = lambda s, ref=ref, mk=mk: E.cread(s, s.mem[mk], ref, lambda t: t)
            vals = lambda s, ref=ref, vkey=vkey: E.cread(s, s.mem[vkey], ref, lambda t: t)

            def every(s, e, pairs=pairs, dom=dom, vals=vals, withval=True):
                ps = []
                for part, kk, vv in pairs:
                    if kk is None:
                        ps.append(part)
                    else:
                        ps.append(And(part, z3.Select(dom(s), kk), (z3.Select(vals(s), kk) == vv) if withval and vv is not None else T_(True)))
                return z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), Or(*ps)))

            def only(s, e, pairs=pairs, dom=dom, vals=vals, ref=ref, mk=mk):
                x = z3.Const('x!mi', ks)
                if not dom(s).sort().domain() == ks:
                    x = z3.Const('x!mi', dom(s).sort().domain())
                ps = []
                for part, kk, vv in pairs:
                    if kk is not None:
                        ps.append(And(part, x == kk))
                e0 = E.cread(st0, st0.mem[mk], ref, lambda t: t)
                return z3.ForAll([x], z3.Implies(z3.Select(dom(s), x), Or(z3.Select(e0, x), z3.Exists([k], And(z3.Select(s.mem[key], k), Or(*ps) if ps else T_(False))))))

            def direct(s, e, pairs=pairs, dom=dom, vals=vals, ref=ref, mk=mk):
                # out[k] only under the key itself
                ps = []
                for part, kk, vv in pairs:
                    if kk is None:
                        continue
                    if not kk.eq(k):
                        raise Undecided('n/a')
                    ps.append(And(part, (z3.Select(vals(s), k) == vv) if vv is not None else T_(True)))
                e0 = E.cread(st0, st0.mem[mk], ref, lambda t: t)
                return z3.ForAll([k], z3.Implies(And(z3.Select(dom(s), k), Not(z3.Select(e0, k))), And(z3.Select(s.mem[key], k), Or(*ps) if ps else T_(False))))
            dk = dom(H.st).sort().domain()
            if dk == ks:
                has_vals = vkey in H.memsyms or vkey in st0.mem
                e0d = E.cread(st0, st0.mem[mk], ref, lambda t: t)
                e0v = E.cread(st0, st0.mem[vkey], ref, lambda t: t) if has_vals else None

                def kept(s, e, dom=dom, vals=vals, e0d=e0d, e0v=e0v):
                    return z3.ForAll([k], z3.Implies(z3.Select(e0d, k), And(z3.Select(dom(s), k), (z3.Select(vals(s), k) == z3.Select(e0v, k)) if e0v is not None else T_(True))))

                def added(s, e, dom=dom, vals=vals, e0d=e0d, e0v=e0v):
                    src = E.map_vals(s, it.x, it.tid)
                    eq = T_(True)
                    if e0v is not None and src.sort() == vals(s).sort():
                        eq = z3.Select(vals(s), k) == z3.Select(src, k)
                    return z3.ForAll([k], z3.Implies(And(z3.Select(dom(s), k), Not(z3.Select(e0d, k))), And(z3.Select(s.mem[key], k), eq)))
                add('entries of before are kept (map)', kept)
                add('added entries come from the map', added)
                add('every visited key is present', lambda s, e, dom=dom: z3.ForAll([k], z3.Implies(z3.Select(s.mem[key], k), z3.Select(dom(s), k))))
                for c in cs:
                    if c.sym.sort() != z3.BoolSort():
                        continue
                    for val in (True, False):
                        add(f'flag {c.n} {val} while the map is as before', lambda s, e, c=c, val=val, dom=dom, e0d=e0d: z3.Implies(
                            get(s, c) if val else Not(get(s, c)), z3.ForAll([k], z3.Select(dom(s), k) == z3.Select(e0d, k))))
                        add(f'flag {c.n} {val} once the map has grown', lambda s, e, c=c, val=val, dom=dom, e0d=e0d: z3.Implies(
                            get(s, c) if val else Not(get(s, c)), z3.Exists([k], And(z3.Select(dom(s), k), Not(z3.Select(e0d, k))))))
            add('every visited key stored', every)
            add('every visited key stored (domain)', lambda s, e, f=every: f(s, e, withval=False))
            add('only visited keys stored', only)
            add('only visited keys stored (direct)', direct)


def outer_vars(E, st0, phis, pn, pt):
    mine = {p['n'] for p in phis}
    return [ins['n'] for b in st0.frames[-1].f['blocks'] for ins in b['i']
            if ins['op'] == 'phi' and ins['n'] not in mine and ins.get('c') == pn and E.tname(ins['t']) == E.tname(pt) and ins['n'] in st0.frames[-1].env]


def user_cands(E, st0, H, clo, phis, idx):
    """Ghost invariants: parameters are matched by type to loop variables and
    to locals of the enclosing function."""
    f = E.funcs[clo.fn]
    D = len(st0.frames) - 1
    opts = []
    for pn, pt in f['params']:
        o = []
        # a variable of that name (its value here, not a later one), else any of that type
        named = [p for p in phis if p.get('c') == pn and E.tname(p['t']) == E.tname(pt)]
        if named:
            opts.append([('phi', p['n'], off) for p in named for off in ((0, 1) if idx is not None and E.tname(pt) == 'int' and named[0]['c'] == 'rangeindex' else (0,))])
            continue
        outer = outer_vars(E, st0, phis, pn, pt)
        if outer:
            opts.append([('reg', n, 0) for n in outer])
            continue
        for p in phis:
            if E.tname(p['t']) == E.tname(pt):
                o.append(('phi', p['n'], 0))
                if E.tname(pt) == 'int':
                    o.append(('phi', p['n'], 1))
        if E.tname(pt) in ('int', 'string'):
            # variables of the enclosing loops
            mine = {p['n'] for p in phis}
            for b in st0.frames[-1].f['blocks']:
                for ins in b['i']:
                    if ins['op'] == 'phi' and ins['n'] not in mine and E.tname(ins['t']) == E.tname(pt) and ins['n'] in st0.frames[-1].env:
                        o.append(('reg', ins['n'], 0))
        if E.kind(pt) in ('map', 'ptr', 'slice'):
            regs = []
            for b in st0.frames[-1].f['blocks']:
                for ins in b['i']:
                    if 'n' in ins and ins['op'] != 'phi' and ins.get('t') is not None and isinstance(ins.get('t'), int) and E.tname(ins['t']) == E.tname(pt) and ins['n'] in st0.frames[-1].env:
                        regs.append(ins['n'])
            seen = set()
            for r in regs[-6:]:
                v = st0.frames[-1].env[r]
                if str(v) in seen:
                    continue
                seen.add(str(v))
                o.append(('reg', r, 0))
        if not o:
            return []
        opts.append(o)
    out = []
    for combo in itertools.islice(itertools.product(*opts), 60):
        srcs = [c[:2] for c in combo]
        if len(set(srcs)) != len(srcs):
            continue

        def fn(s, e, combo=combo):
            args = []
            fr = s.frames[D]
            for kind, n, off in combo:
                v = fr.env[n]
                args.append(simp(v + 1) if off else v)
            sub = s
            n0 = len(sub.pc)
            its = [k for k in H.memsyms if k[0] == 'it']
            E.visit_key = its[0] if len(its) == 1 else None
            gh = sub.ghost
            sub.ghost = dict(gh, nopanic=False)
            try:
                r = E.eval_pure(sub, clo, args)
            finally:
                E.visit_key = None
                sub.ghost = gh
            facts = [t for k, t in sub.pc[n0:]]
            del sub.pc[n0:]
            # facts are definitional (type ranges, models); they hold anyway
            for t in facts:
                sub.assume(t)
            return r
        out.append(Cand(f'ghost invariant {clo.fn}', fn, user=True))
    return out
