"""Sorts, values and memory of the verification-condition generator.

Go values are represented as z3 terms where possible and as small Python
objects (slices, structs, closures, interior pointers) otherwise.  Integers are
mathematical integers constrained to the range of their Go type on input;
strings are z3 sequences whose elements stand for bytes.
"""
import z3

IfaceS = z3.DeclareSort('Iface')
nilI = z3.Const('nil!iface', IfaceS)
dyntype = z3.Function('dyntype', IfaceS, z3.IntSort())
SliceDT = z3.Datatype('GoSlice')
SliceDT.declare('mk', ('arr', z3.IntSort()), ('off', z3.IntSort()), ('len', z3.IntSort()))
SliceS = SliceDT.create()
ALLOC0 = 1_000_000


class Undecided(Exception):
    """The generator cannot express something: the obligation stays undecided."""


class SliceV:
    __slots__ = ('arr', 'off', 'ln')

    def __init__(self, arr, off, ln):
        self.arr, self.off, self.ln = arr, off, ln

    def __repr__(self):
        return f'Slice({self.arr},{self.off},{self.ln})'


class StructV:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = list(vals)

    def __repr__(self):
        return f'Struct{self.vals}'


class ArrV:
    """A fixed-size array value (by value)."""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = list(vals)


class Tup:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = list(vals)

    def __repr__(self):
        return f'Tup{self.vals}'


class Clo:
    __slots__ = ('fn', 'binds', 'uid')
    count = 0

    def __init__(self, fn, binds=()):
        self.fn, self.binds = fn, tuple(binds)
        Clo.count += 1
        self.uid = Clo.count

    def __repr__(self):
        return f'Clo({self.fn})'


class PField:
    """Interior pointer: field f of the struct (type tid) that base points to."""
    __slots__ = ('base', 'tid', 'f')

    def __init__(self, base, tid, f):
        self.base, self.tid, self.f = base, tid, f

    def __repr__(self):
        return f'&({self.base}).{self.f}'


class PElem:
    """Interior pointer: element idx of backing array arr."""
    __slots__ = ('arr', 'idx', 'tid')

    def __init__(self, arr, idx, tid):
        self.arr, self.idx, self.tid = arr, idx, tid


class PArrElem:
    """Interior pointer: element of an array that lives inside another object."""
    __slots__ = ('base', 'idx', 'tid')

    def __init__(self, base, idx, tid):
        self.base, self.idx, self.tid = base, idx, tid


class PGlobal:
    __slots__ = ('name', 'tid')

    def __init__(self, name, tid):
        self.name, self.tid = name, tid


class IterV:
    __slots__ = ('kind', 'x', 'tid', 'uid')

    def __init__(self, kind, x, tid, uid):
        self.kind, self.x, self.tid, self.uid = kind, x, tid, uid


class Cell:
    """Memory of one key: reference -> value.  `base` is a z3 array giving the
    value of references never written; `log` the writes since, newest last."""
    __slots__ = ('base', 'tid', 'log', 'raw')

    def __init__(self, base, tid, log=(), raw=None):
        self.base, self.tid, self.log, self.raw = base, tid, log, raw


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def intval(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if is_z3(x) and z3.is_int_value(x):
        return x.as_long()
    return None


_inpcache = {}


def input_only(t):
    """True when every uninterpreted symbol of t names entry state ("in!")."""
    k = t.get_id()
    r = _inpcache.get(k)
    if r is not None:
        return r[1]
    ok = True
    stack = [t]
    seen = set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_var(e) or z3.is_quantifier(e):
            ok = False
            break
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
                n = e.decl().name()
                if not n.startswith('in!'):
                    ok = False
                    break
            stack.extend(e.children())
    _inpcache[k] = (t, ok)
    return ok


def simp(e):
    return z3.simplify(e)


def T_(b):
    return z3.BoolVal(b)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return T_(False)
    if not xs:
        return T_(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return T_(True)
    if not xs:
        return T_(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return T_(False)
    if z3.is_false(x):
        return T_(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def free_consts(e, acc=None):
    acc = {} if acc is None else acc
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            stack.extend(x.children())
    return acc


INF = float('inf')
_rb = {}


def refbound(t):
    """Upper bound on the allocation number of any reference term t can denote."""
    if isinstance(t, int):
        return t
    if not is_z3(t):
        return INF
    k = t.get_id()
    r = _rb.get(k)
    if r is not None:
        return r[1]
    m = ALLOC0 - 1
    stack, seen = [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_var(e) or z3.is_quantifier(e):
            m = INF
            break
        if z3.is_int_value(e):
            v = e.as_long()
            if ALLOC0 <= v < 500_000_000:
                m = max(m, v)
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if '@' in n and not n.startswith('in!'):
                    m = max(m, int(n.rsplit('@', 1)[1]))
            stack.extend(e.children())
    _rb[k] = (t, m)
    return m


def is_leafy(t):
    """A constant, or a selection/application whose bound is worth stating."""
    return is_z3(t) and refbound(t) != INF and not z3.is_int_value(t) and not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE)


def multipattern(*xs):
    """z3.MultiPattern, holding on to its arguments (z3py drops temporaries)."""
    keep = list(xs)
    p = z3.MultiPattern(*keep)
    _PATTERN_ARGS.append(keep)
    return p


_PATTERN_ARGS = []


def addo(off, i):
    """off + i, kept free of a zero offset so that patterns match."""
    if intval(off) == 0:
        return i if is_z3(i) else z3.IntVal(i)
    return off + i


def has_exists(t, seen=None):
    """Whether a (positively or negatively) existential quantifier occurs."""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return not t.is_forall() or has_exists(t.body(), seen)
    return any(has_exists(c, seen) for c in t.children())
