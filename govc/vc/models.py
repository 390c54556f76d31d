"""Contracts of the standard-library and third-party functions the verified code
calls.  They are assumed, not proved; every one used is listed in the evidence."""
import z3

from core import *
from engine_exc import Dead

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()


def sv(x):
    return z3.StringVal(x)


def str_parts(s):
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in s.children() for p in str_parts(c)]
    return [s]


def lacks(x, ch, facts):
    """Whether the string x certainly does not contain the text ch."""
    if z3.is_string_value(x):
        return ch not in decode_z3(x.as_string())
    if not z3.is_app(x):
        return False
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        return lacks(x.arg(1), ch, facts) and lacks(x.arg(2), ch, facts)
    if k == z3.Z3_OP_INT_TO_STR:
        return not ch.isdigit()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return all(lacks(c, ch, facts) for c in x.children())
    return x.get_id() in facts


def lack_facts(st, sep):
    out = set()
    todo = list(st.terms())
    while todo:
        t = todo.pop()
        if z3.is_and(t):
            todo += t.children()
        elif z3.is_not(t):
            c = t.arg(0)
            if z3.is_or(c):
                todo += [z3.Not(x) for x in c.children()]
            elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and c.arg(1).eq(sep):
                out.add(c.arg(0).get_id())
    return out


def static_cut(st, s, sep, depth=0):
    """strings.Cut where the first occurrence is known from the shape of s:
    literal parts, and parts that are known not to contain the separator."""
    if not z3.is_string_value(sep):
        return None
    ch = decode_z3(sep.as_string())
    if len(ch) != 1:
        return None
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
        a, b = static_cut(st, s.arg(1), sep), static_cut(st, s.arg(2), sep)
        if a is None or b is None:
            return None
        return simp(z3.If(s.arg(0), a[0], b[0])), simp(z3.If(s.arg(0), a[1], b[1]))
    ps = str_parts(s)
    if len(ps) < 2:
        return None
    facts = lack_facts(st, sep)
    cat = lambda l: sv('') if not l else l[0] if len(l) == 1 else z3.Concat(*l)
    for n, x in enumerate(ps):
        if z3.is_string_value(x):
            w = decode_z3(x.as_string())
            i = w.find(ch)
            if i < 0:
                continue
            return (simp(cat(ps[:n] + ([enc_z3(w[:i])] if i else []))),
                    simp(cat(([enc_z3(w[i + 1:])] if w[i + 1:] else []) + ps[n + 1:])))
        if not lacks(x, ch, facts):
            if depth < 6 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                alts = [static_cut(st, cat(ps[:n] + [x.arg(k)] + ps[n + 1:]), sep, depth + 1) for k in (1, 2)]
                if None not in alts:
                    return tuple(simp(z3.If(x.arg(0), alts[0][k], alts[1][k])) for k in (0, 1))
            return None
    return None



def build(E):
    from engine import Push, Fork
    M = {}

    def model(*names):
        def deco(f):
            def g(E_, st, call, args, name=None, f=f, n=names[0]):
                E.assumed['model of ' + n] += 1
                return f(st, call, args)
            for n in names:
                M[n] = g
            return f
        return deco

    def ptypes(call):
        return [p[1] for p in call['sig']['params']]

    def boolof(x):
        return simp(x)

    INTT, STRT, BOOLT = E.bystr.get('int'), E.bystr.get('string'), E.bystr.get('bool')
    ERRT = E.bystr.get('error')

    def strs(st, sl):
        n = intval(sl.ln)
        if n is None or n > 32:
            return None
        return [E.elem(st, sl, i, STRT) for i in range(n)]

    def new_error(st, hint='err', wraps=None):
        """A fresh non-nil error distinct from every existing one."""
        e = z3.Const(E.fresh_name(hint), IfaceS)
        st.assume(e != nilI)
        k = ('errs',)
        st.assume(dyntype(e) == -2)
        return e

    # ------------------------------------------------------------- strings
    @model('strings.Contains')
    def _(st, call, a):
        return simp(z3.Contains(a[0], a[1]))

    @model('strings.HasPrefix')
    def _(st, call, a):
        return simp(z3.PrefixOf(a[1], a[0]))

    @model('strings.HasSuffix')
    def _(st, call, a):
        return simp(z3.SuffixOf(a[1], a[0]))

    @model('strings.Index')
    def _(st, call, a):
        return simp(z3.IndexOf(a[0], a[1], 0))

    @model('strings.IndexByte', 'strings.IndexRune')
    def _(st, call, a):
        return simp(z3.IndexOf(a[0], z3.StrFromCode(a[1]), 0))

    def last_index(st, s, t):
        r = simp(z3.LastIndexOf(s, t))
        if not z3.is_int_value(r):
            # stated explicitly: back ends treat last-index weakly
            i = z3.Int(E.fresh_name('li'))
            st.assume(And(i >= -1, i <= z3.Length(s)))
            st.assume(z3.If(z3.Contains(s, t), And(i >= 0, z3.SubString(s, i, z3.Length(t)) == t, i + z3.Length(t) <= z3.Length(s),
                                                   z3.Not(z3.Contains(z3.SubString(s, i + 1, z3.Length(s)), t))), i == -1))
            return i
        return r

    @model('strings.LastIndex')
    def _(st, call, a):
        return last_index(st, a[0], a[1])

    @model('strings.LastIndexByte')
    def _(st, call, a):
        return last_index(st, a[0], simp(z3.StrFromCode(a[1])))

    @model('strings.Cut')
    def _(st, call, a):
        s, sep = a
        r = static_cut(st, s, sep)
        if r is not None:
            return Tup([r[0], r[1], T_(True)])
        has = simp(z3.Contains(s, sep))
        i = z3.IndexOf(s, sep, 0)
        before = simp(z3.If(has, z3.SubString(s, 0, i), s))
        after = simp(z3.If(has, z3.SubString(s, i + z3.Length(sep), z3.Length(s)), sv('')))
        return Fork([(has, Tup([simp(z3.SubString(s, 0, i)), simp(z3.SubString(s, i + z3.Length(sep), z3.Length(s) - i - z3.Length(sep))), T_(True)])),
                     (Not(has), Tup([s, sv(''), T_(False)]))])

    @model('strings.CutPrefix')
    def _(st, call, a):
        s, p = a
        c = simp(z3.PrefixOf(p, s))
        return Fork([(c, Tup([simp(z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p))), T_(True)])), (Not(c), Tup([s, T_(False)]))])

    @model('strings.CutSuffix')
    def _(st, call, a):
        s, p = a
        c = simp(z3.SuffixOf(p, s))
        return Fork([(c, Tup([simp(z3.SubString(s, 0, z3.Length(s) - z3.Length(p))), T_(True)])), (Not(c), Tup([s, T_(False)]))])

    @model('strings.TrimPrefix')
    def _(st, call, a):
        s, p = a
        return simp(z3.If(z3.PrefixOf(p, s), z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p)), s))

    @model('strings.TrimSuffix')
    def _(st, call, a):
        s, p = a
        return simp(z3.If(z3.SuffixOf(p, s), z3.SubString(s, 0, z3.Length(s) - z3.Length(p)), s))

    def is_space_str(c):
        # one byte: ASCII white space (Latin-1 NEL/NBSP are multi-byte in UTF-8)
        return Or(*[c == sv(x) for x in ('\\u{20}', '\\u{9}', '\\u{a}', '\\u{b}', '\\u{c}', '\\u{d}')])

    def trim_facts(st, s, r, left, right, name):
        st.assume(z3.Contains(s, r))
        pre, post = z3.String(E.fresh_name('tp')), z3.String(E.fresh_name('ts'))
        st.assume(s == z3.Concat(pre if left else sv(''), r, post if right else sv('')))
        if left:
            st.assume(z3.Implies(z3.Length(r) > 0, Not(is_space_str(z3.SubString(r, 0, 1)))))
            st.assume(z3.Implies(And(z3.Length(pre) > 0, z3.Length(r) > 0), True))
        if right:
            st.assume(z3.Implies(z3.Length(r) > 0, Not(is_space_str(z3.SubString(r, z3.Length(r) - 1, 1)))))
        # nothing to trim: identity
        first_ok = Not(is_space_str(z3.SubString(s, 0, 1))) if left else T_(True)
        last_ok = Not(is_space_str(z3.SubString(s, z3.Length(s) - 1, 1))) if right else T_(True)
        ascii_edge = And(z3.StrToCode(z3.SubString(s, 0, 1)) < 128, z3.StrToCode(z3.SubString(s, z3.Length(s) - 1, 1)) < 128)
        st.assume(z3.Implies(And(z3.Length(s) > 0, first_ok, last_ok, ascii_edge), r == s))
        st.assume(z3.Implies(z3.Length(s) == 0, r == sv('')))

    @model('strings.TrimSpace', 'bytes.TrimSpace')
    def _(st, call, a):
        s = a[0]
        if z3.is_string_value(s):
            return E.strval(pystr(s).strip(' \t\n\v\f\r'))
        r = E.uf('TrimSpace', S, S)(s)
        trim_facts(st, s, r, True, True, 'TrimSpace')
        return r

    def pystr(s):
        return s.as_string()

    @model('strings.TrimLeftFunc')
    def _(st, call, a):
        s, f = a
        if isinstance(f, Clo) and f.fn == 'unicode.IsSpace':
            r = E.uf('TrimLeftSpace', S, S)(s)
            trim_facts(st, s, r, True, False, 'TrimLeftSpace')
            return r
        raise Undecided('TrimLeftFunc')

    @model('strings.Trim', 'strings.TrimLeft', 'strings.TrimRight')
    def _(st, call, a):
        r = E.uf('Trim', S, S, S)(a[0], a[1])
        st.assume(z3.Contains(a[0], r))
        return r

    @model('strings.ToLower', 'strings.ToUpper', 'strings.Title')
    def _(st, call, a):
        return E.uf('case', S, S)(a[0])

    @model('strings.Compare', 'cmp.Compare')
    def _(st, call, a):
        x, y = a
        lt = x < y
        return simp(z3.If(x == y, z3.IntVal(0), z3.If(lt, z3.IntVal(-1), z3.IntVal(1))))

    @model('strings.EqualFold')
    def _(st, call, a):
        r = E.uf('EqualFold', S, S, B)(a[0], a[1])
        st.assume(z3.Implies(a[0] == a[1], r))
        return r

    @model('strings.ReplaceAll')
    def _(st, call, a):
        return simp(z3.SeqRef(z3.Z3_mk_seq_replace_all(a[0].ctx_ref(), a[0].as_ast(), a[1].as_ast(), a[2].as_ast()), a[0].ctx)) if hasattr(z3, 'Z3_mk_seq_replace_all') else E.uf('ReplaceAll', S, S, S, S)(*a)

    @model('strings.Repeat')
    def _(st, call, a):
        n = intval(a[1])
        if n is not None:
            return simp(z3.Concat(*([a[0]] * n))) if n > 1 else (a[0] if n == 1 else sv(''))
        return E.uf('Repeat', S, I, S)(a[0], a[1])

    ASTR = z3.ArraySort(I, S)

    @model('strings.Join')
    def _(st, call, a):
        sl, sep = a
        xs = strs(st, sl)
        if xs is not None:
            out = sv('')
            for i, x in enumerate(xs):
                out = x if i == 0 else z3.Concat(out, sep, x)
            return simp(out)
        arr = E.arr_get(st, sl.arr, STRT)
        f = E.uf('Join', ASTR, I, I, S, S)
        r = f(arr, sl.off, sl.ln, sep)
        st.assume(z3.Implies(sl.ln == 0, r == sv('')))
        st.assume(z3.Implies(sl.ln == 1, r == z3.Select(arr, sl.off)))
        return r

    def split_facts(st, s, sep, sl_arr, n):
        el = lambda i: z3.Select(sl_arr, i)
        st.assume(n >= 1)
        st.assume(z3.Implies(Not(z3.Contains(s, sep)), And(n == 1, el(0) == s)))
        st.assume(z3.Implies(z3.Contains(s, sep), And(n >= 2, el(0) == z3.SubString(s, 0, z3.IndexOf(s, sep, 0)))))
        i = z3.Int(E.fresh_name('i'))
        st.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < n), And(Not(z3.Contains(el(i), sep)), z3.Contains(s, el(i)))), patterns=[el(i)]))
        st.assume(E.uf('Join', ASTR, I, I, S, S)(sl_arr, z3.IntVal(0), n, sep) == s)

    @model('strings.Split')
    def _(st, call, a):
        s, sep = a
        if z3.is_string_value(s) and z3.is_string_value(sep) and s.as_string().isascii():
            return E.slice_of(st, [E.strval(x) for x in pystr(s).split(pystr(sep))], STRT)
        if not z3.is_const(s):  # it becomes part of a pattern
            named = z3.String(E.fresh_name('split'))
            st.assume(named == s)
            s = named
        arr = E.uf('SplitA', S, S, ASTR)(s, sep)
        n = E.uf('SplitN', S, S, I)(s, sep)
        split_facts(st, s, sep, arr, n)
        ref = E.new_array(st, STRT, arr)
        return SliceV(ref, z3.IntVal(0), n)

    @model('strings.Fields', 'strings.SplitN')
    def _(st, call, a):
        key = 'Fields' if len(a) == 1 else 'SplitN'
        arr = E.uf(key + 'A', *([x.sort() for x in a] + [ASTR]))(*a)
        n = E.uf(key + 'C', *([x.sort() for x in a] + [I]))(*a)
        st.assume(n >= 0)
        if key == 'SplitN':
            st.assume(z3.Implies(And(a[2] > 0, z3.Length(a[1]) > 0), And(n >= 1, n <= a[2])))
        ref = E.new_array(st, STRT, arr)
        return SliceV(ref, z3.IntVal(0), n)

    @model('unicode.IsSpace')
    def _(st, call, a):
        r = a[0]
        return simp(Or(r == 32, And(r >= 9, r <= 13), r == 0x85, r == 0xA0, E.uf('wideSpace', I, B)(r)))

    @model('unicode.IsLetter', 'unicode.IsDigit', 'unicode.IsUpper')
    def _(st, call, a):
        return E.uf('unicls', I, B)(a[0])

    @model('unicode/utf8.DecodeRuneInString')
    def _(st, call, a):
        s = a[0]
        r, w = z3.Int(E.fresh_name('rune')), z3.Int(E.fresh_name('w'))
        c = z3.StrToCode(z3.SubString(s, 0, 1))
        st.assume(z3.If(z3.Length(s) == 0, And(r == 0xFFFD, w == 0), z3.If(c < 128, And(r == c, w == 1), And(r >= 128, w >= 1, w <= 4, w <= z3.Length(s)))))
        return Tup([r, w])

    # ------------------------------------------------------ builders, buffers
    def text_get(st, p):
        key, r = E.ghost_cell(p, 'text', 'string')
        c = E.cell(st, key, STRT)
        v = E.cread(st, c, r, lambda t: t)
        rv = intval(r)
        if rv is not None and not any(not isinstance(k, tuple) and E.same(k, r) for k, _ in c.log):
            hav = any(isinstance(k, tuple) for k, _ in c.log)
            if not hav:
                return sv('')      # zero value
        return v

    def text_set(st, p, v):
        key, r = E.ghost_cell(p, 'text', 'string')
        E.cwrite(st, key, E.cell(st, key, STRT), r, simp(v))

    def res_n_err(n):
        return Tup([n, nilI])

    @model('(*strings.Builder).WriteString', '(*bytes.Buffer).WriteString')
    def _(st, call, a):
        text_set(st, a[0], z3.Concat(text_get(st, a[0]), a[1]))
        return res_n_err(simp(z3.Length(a[1])))

    @model('(*strings.Builder).WriteByte', '(*bytes.Buffer).WriteByte')
    def _(st, call, a):
        text_set(st, a[0], z3.Concat(text_get(st, a[0]), z3.StrFromCode(a[1])))
        return nilI

    @model('(*strings.Builder).WriteRune', '(*bytes.Buffer).WriteRune')
    def _(st, call, a):
        text_set(st, a[0], z3.Concat(text_get(st, a[0]), E.rune_str(st, a[1])))
        return res_n_err(z3.IntVal(1))

    @model('(*strings.Builder).Grow')
    def _(st, call, a):
        return Tup([])

    @model('(*strings.Builder).String', '(*bytes.Buffer).String')
    def _(st, call, a):
        return text_get(st, a[0])

    @model('(*strings.Builder).Len', '(*bytes.Buffer).Len')
    def _(st, call, a):
        return simp(z3.Length(text_get(st, a[0])))

    @model('(*strings.Builder).Reset', '(*bytes.Buffer).Reset')
    def _(st, call, a):
        text_set(st, a[0], sv(''))
        return Tup([])

    @model('(*bytes.Buffer).Bytes')
    def _(st, call, a):
        return E.str_to_bytes(st, text_get(st, a[0]), E.bystr['byte'] if 'byte' in E.bystr else E.bystr['uint8'])

    @model('(*bytes.Buffer).Write', '(*strings.Builder).Write')
    def _(st, call, a):
        t = E.bytes_to_str(st, a[1], E.T(ptypes(call)[-1])['elem'])
        text_set(st, a[0], z3.Concat(text_get(st, a[0]), t))
        return res_n_err(a[1].ln)

    def writer_text(st, w):
        """The text object behind an io.Writer, if its dynamic type is known."""
        d = E.known_dyn(w)
        if d is None:
            d = E.implied_dyn(st, w)
        if d is not None and E.tname(d) in ('*strings.Builder', '*bytes.Buffer'):
            return E.unbox(st, w, d)
        if d is not None and E.kind(d) == 'ptr':
            et = E.T(d)['elem']
            if E.kind(et) == 'struct' and E.T(et)['fields'] and E.tname(E.T(et)['fields'][0][1]) == 'strings.Builder':
                return PField(E.unbox(st, w, d), et, 0)
            raise Undecided('writer ' + E.tname(d))
        # unknown writer: an object identified by the interface value
        return E.uf('writerText', IfaceS, I)(w)

    @model('io.WriteString')
    def _(st, call, a):
        d = E.known_dyn(a[0])
        if d is not None and E.tname(d) not in ('*strings.Builder', '*bytes.Buffer'):
            ms = E.methods.get(E.tname(d), {})
            w = ms.get('WriteString')
            f = E.funcs.get(w) if w else None
            if f is not None and 'blocks' in f:
                return Push(Clo(w), [E.unbox(st, a[0], d), a[1]])
        t = writer_text(st, a[0])
        if d is not None:
            text_set(st, t, z3.Concat(text_get(st, t), a[1]))
            return res_n_err(simp(z3.Length(a[1])))
        # arbitrary writer: may fail
        err = z3.Const(E.fresh_name('werr'), IfaceS)
        text_set(st, t, z3.Concat(text_get(st, t), a[1]))
        return Tup([simp(z3.Length(a[1])), err])

    @model('iface:github.com/DataDog/orchestrion/internal/fingerprint.Hashable.Hash')
    def _(st, call, a):
        # a hashable value appends a text that depends on nothing but the value,
        # or fails (each implementation is checked against this separately)
        pt = ptypes(call)[-1]
        ht = E.T(pt)['elem']
        fi = [i for i, f in enumerate(E.T(ht)['fields']) if f[0] == 'hash']
        if not fi:
            raise Undecided('Hasher has no hash field')
        t = writer_text(st, E.load(st, PField(a[1], ht, fi[0]), E.T(ht)['fields'][fi[0]][1]))
        ok = E.uf('hashOk', IfaceS, B)(a[0])

        def good(s):
            text_set(s, t, z3.Concat(text_get(s, t), E.uf('hashText', IfaceS, S)(a[0])))
            return nilI

        def bad(s):
            text_set(s, t, z3.String(E.fresh_name('part')))
            return new_error(s, 'hasherr')
        return Fork([(ok, good), (Not(ok), bad)])

    # ---------------------------------------------------------------- errors
    @model('errors.New')
    def _(st, call, a):
        return new_error(st, 'err')

    def wrapped(st, outer, inner):
        """errors.Is(outer, t) holds for every t that errors.Is(inner, t) does."""
        f = E.uf('errIs', IfaceS, IfaceS, B)
        t = z3.Const(E.fresh_name('t'), IfaceS)
        st.assume(z3.ForAll([t], z3.Implies(f(inner, t), f(outer, t)), patterns=[f(outer, t)]))

    def fmt_parts(fs):
        """Splits a constant format string into literal text and verbs."""
        out, i, lit = [], 0, ''
        while i < len(fs):
            if fs[i] == '%':
                j = i + 1
                while j < len(fs) and fs[j] in '+-# 0123456789.*[]':
                    j += 1
                if j >= len(fs):
                    return None
                v = fs[i:j + 1]
                if v == '%%':
                    lit += '%'
                else:
                    out.append(('lit', lit))
                    lit = ''
                    out.append(('verb', v))
                i = j + 1
            else:
                lit += fs[i]
                i += 1
        out.append(('lit', lit))
        return out

    def fmt_arg(st, verb, x):
        d = E.known_dyn(x)
        if d is not None and verb in ('%s', '%v') and E.kind(d) == 'basic' and E.T(d)['info'] & 32 and (not E.methods.get(E.tname(d)) or 'String' not in E.methods[E.tname(d)] and 'Error' not in E.methods[E.tname(d)]):
            return E.unbox(st, x, d)
        if d is not None and verb in ('%d', '%v') and E.kind(d) == 'basic' and E.T(d)['info'] & 2 and not ('String' in (E.methods.get(E.tname(d)) or {})):
            return itoa(st, E.unbox(st, x, d))
        if d is not None and verb == '%q' and E.kind(d) == 'basic' and E.T(d)['info'] & 32:
            return E.uf('Quote', S, S)(E.unbox(st, x, d))
        return E.uf('fmt' + verb, IfaceS, S)(x)

    def itoa(st, n):
        v = intval(n)
        if v is not None:
            return sv(str(v))
        r = z3.If(n >= 0, z3.IntToStr(n), z3.Concat(sv('-'), z3.IntToStr(-n)))
        return r

    def sprintf(st, fs, sl):
        if not z3.is_string_value(fs):
            n = intval(sl.ln)
            return z3.Const(E.fresh_name('sprintf'), S)
        parts = fmt_parts(fs.as_string())
        n = intval(sl.ln)
        if parts is None or n is None or sum(1 for k, _ in parts if k == 'verb') != n:
            return z3.Const(E.fresh_name('sprintf'), S)
        out, k = [], 0
        anyt = E.bystr.get('interface{}', E.bystr.get('any'))
        content = E.arr_get(st, sl.arr, anyt)
        for kind, v in parts:
            if kind == 'lit':
                if v:
                    out.append(E.strval(v))
            else:
                x = simp(z3.Select(content, simp(addo(sl.off, k))))
                out.append(fmt_arg(st, v, x))
                k += 1
        if not out:
            return sv('')
        return simp(z3.Concat(*out)) if len(out) > 1 else out[0]

    @model('fmt.Sprintf')
    def _(st, call, a):
        return sprintf(st, a[0], a[1])

    @model('fmt.Sprint', 'fmt.Sprintln')
    def _(st, call, a):
        return z3.Const(E.fresh_name('sprint'), S)

    @model('fmt.Errorf')
    def _(st, call, a):
        e = new_error(st, 'errf')
        fs, sl = a
        if z3.is_string_value(fs):
            parts = fmt_parts(fs.as_string()) or []
            verbs = [v for k, v in parts if k == 'verb']
            anyt = E.bystr.get('interface{}', E.bystr.get('any'))
            n = intval(sl.ln)
            if n == len(verbs):
                content = E.arr_get(st, sl.arr, anyt)
                for i, v in enumerate(verbs):
                    if v == '%w':
                        x = simp(z3.Select(content, simp(addo(sl.off, i))))
                        wrapped(st, e, x)
                        # error chains are recorded for errors.As
                        st.assume(E.uf('errWraps', IfaceS, IfaceS, B)(e, x))
        return e

    @model('errors.Is')
    def _(st, call, a):
        f = E.uf('errIs', IfaceS, IfaceS, B)
        r = f(a[0], a[1])
        st.assume(z3.Implies(And(a[0] == a[1]), r))
        st.assume(z3.Implies(And(a[0] == nilI, a[1] != nilI), Not(r)))
        return r

    @model('errors.Join')
    def _(st, call, a):
        sl = a[0]
        n = intval(sl.ln)
        if n is None:
            e = z3.Const(E.fresh_name('ejoin'), IfaceS)
            return e
        content = E.arr_get(st, sl.arr, ERRT)
        xs = [simp(z3.Select(content, simp(addo(sl.off, i)))) for i in range(n)]
        e = z3.Const(E.fresh_name('ejoin'), IfaceS)
        st.assume((e == nilI) == And(*[x == nilI for x in xs]))
        for x in xs:
            wrapped(st, e, x)
        return e

    @model('errors.As')
    def _(st, call, a):
        # target: pointer to a variable of the wanted error type
        t = a[1]
        d = E.known_dyn(t)
        if d is None:
            raise Undecided('errors.As target')
        p = E.unbox(st, t, d)
        et = E.T(d)['elem']
        ok = E.uf(f'errAs{E.tname(et)}', IfaceS, B)(a[0])
        val = E.uf(f'errAsV{E.tname(et)}', IfaceS, E.sort(et))(a[0])
        st.assume(z3.Implies(a[0] == nilI, Not(ok)))

        def yes(s):
            E.store(s, p, E.decode(s, val, et), et)
            return T_(True)
        return Fork([(ok, yes), (Not(ok), T_(False))])

    # --------------------------------------------------------------- strconv
    @model('strconv.Itoa')
    def _(st, call, a):
        return simp(itoa(st, a[0]))

    @model('strconv.FormatInt')
    def _(st, call, a):
        if intval(a[1]) == 10:
            return simp(itoa(st, a[0]))
        return E.uf('FormatInt', I, I, S)(*a)

    @model('strconv.FormatBool')
    def _(st, call, a):
        return simp(z3.If(a[0], sv('true'), sv('false')))

    @model('strconv.Quote')
    def _(st, call, a):
        q = E.uf('Quote', S, S)
        u = E.uf('UnquoteV', S, S)
        ok = E.uf('UnquoteOk', S, B)
        st.assume(And(u(q(a[0])) == a[0], ok(q(a[0]))))
        return q(a[0])

    @model('strconv.Unquote')
    def _(st, call, a):
        ok = E.uf('UnquoteOk', S, B)(a[0])
        v = E.uf('UnquoteV', S, S)(a[0])
        return Fork([(ok, Tup([v, nilI])), (Not(ok), lambda s: Tup([sv(''), new_error(s, 'unq')]))])

    @model('strconv.Atoi')
    def _(st, call, a):
        s = a[0]
        ok = E.uf('AtoiOk', S, B)(s)
        v = E.uf('AtoiV', S, I)(s)
        digits = z3.InRe(s, z3.Plus(z3.Range('0', '9')))
        st.assume(z3.Implies(And(digits, z3.Length(s) <= 18), And(ok, v == z3.StrToInt(s))))
        st.assume(z3.Implies(ok, z3.Length(s) > 0))
        st.assume(And(v >= -2**63, v < 2**63))
        return Fork([(ok, Tup([v, nilI])), (Not(ok), lambda st_: Tup([v, new_error(st_, 'atoi')]))])

    @model('strconv.ParseBool')
    def _(st, call, a):
        s = a[0]
        t = Or(*[s == sv(x) for x in ('1', 't', 'T', 'true', 'TRUE', 'True')])
        f = Or(*[s == sv(x) for x in ('0', 'f', 'F', 'false', 'FALSE', 'False')])
        return Fork([(t, Tup([T_(True), nilI])), (f, Tup([T_(False), nilI])),
                     (And(Not(t), Not(f)), lambda st_: Tup([T_(False), new_error(st_, 'pbool')]))])

    # ------------------------------------------------------------ slices, maps
    def elem_t(call, i=0):
        return E.T(ptypes(call)[i])['elem']

    @model('slices.Contains')
    def _(st, call, a):
        s, x = a
        et = elem_t(call)
        arr = E.arr_get(st, s.arr, et)
        ex = E.encode(x, et)
        n = intval(s.ln)
        if n is not None and n <= 32:
            return simp(Or(*[z3.Select(arr, simp(addo(s.off, i))) == ex for i in range(n)]))
        i = z3.Int(E.fresh_name('i'))
        r = z3.Bool(E.fresh_name('has'))
        w = z3.Int(E.fresh_name('w'))
        st.assume(z3.Implies(r, And(w >= 0, w < s.ln, z3.Select(arr, addo(s.off, w)) == ex)))
        st.assume(z3.Implies(Not(r), z3.ForAll([i], z3.Implies(And(i >= 0, i < s.ln), z3.Select(arr, addo(s.off, i)) != ex))))
        return r

    @model('slices.Index')
    def _(st, call, a):
        s, x = a
        et = elem_t(call)
        arr = E.arr_get(st, s.arr, et)
        ex = E.encode(x, et)
        r = z3.Int(E.fresh_name('idx'))
        i = z3.Int(E.fresh_name('i'))
        st.assume(And(r >= -1, r < s.ln))
        st.assume(z3.Implies(r >= 0, z3.Select(arr, addo(s.off, r)) == ex))
        st.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < s.ln, Or(r < 0, i < r)), z3.Select(arr, addo(s.off, i)) != ex)))
        return r

    @model('slices.IndexFunc', 'slices.ContainsFunc')
    def _(st, call, a):
        s, f = a
        et = elem_t(call)
        r = z3.Int(E.fresh_name('idx'))
        i = z3.Int('if!%d' % E._ctr)
        E._ctr += 1
        st.assume(And(r >= -1, r < s.ln))
        el = lambda k: E.decode(None, simp(z3.Select(E.arr_get(st, s.arr, et), simp(addo(s.off, k)))), et)
        q = E.quantify(st, [i], And(i >= 0, i < s.ln, Or(r < 0, i < r)), Clo(f.fn, f.binds), [el(i)], True)
        # the predicate is false before r and true at r
        q2 = negate_body(st, i, And(i >= 0, i < s.ln, Or(r < 0, i < r)), f, el)
        st.assume(q2)
        at = E.eval_pure(st, f, [el(r)]) if True else None
        st.assume(z3.Implies(r >= 0, at))
        if call['sig']['results'] and E.T(call['sig']['results'][0][1]).get('info', 0) & 1:
            return simp(r >= 0)
        return r

    def negate_body(st, i, guard, f, el):
        sub = st.fork()
        sub.assume(guard, 'b')
        n1 = len(sub.pc)
        b = E.eval_pure(sub, f, [el(i)])
        for t in [t for k, t in sub.pc[n1:]]:
            st.assume(z3.ForAll([i], z3.Implies(guard, t)) if i.decl().name() in free_consts(t) else t)
        return z3.ForAll([i], z3.Implies(guard, Not(b)))

    @model('slices.DeleteFunc')
    def _(st, call, a):
        # some elements of the slice, in order, on none of which the predicate holds
        s, f = a
        et = elem_t(call)
        old = E.arr_get(st, s.arr, et)
        new = z3.Const(E.fresh_name('kept'), old.sort())
        n = z3.Int(E.fresh_name('nk'))
        pos = z3.Function(E.fresh_name('kpos'), I, I)
        i = z3.Int('dk!%d' % E._ctr)
        j = z3.Int('dl!%d' % E._ctr)
        E._ctr += 1
        st.assume(And(n >= 0, n <= s.ln))
        st.assume(z3.ForAll([i], z3.Implies(And(i >= 0, i < n), And(pos(i) >= 0, pos(i) < s.ln, pos(i) >= i, z3.Select(new, i) == z3.Select(old, addo(s.off, pos(i))))), patterns=[z3.Select(new, i)]))
        st.assume(z3.ForAll([i, j], z3.Implies(And(i >= 0, i < j, j < n), pos(i) < pos(j)), patterns=[multipattern(pos(i), pos(j))]))
        rest = st.fork()
        ref = E.new_array(st, et, new)
        el = lambda k: E.decode(None, z3.Select(new, k), et)
        st.assume(negate_body(st, i, And(i >= 0, i < n), f, el))
        # what is left out satisfies the predicate
        inv = z3.Function(E.fresh_name('kinv'), I, I)
        i2 = z3.Int('dm!%d' % E._ctr)
        E._ctr += 1
        elo = lambda k: E.decode(None, z3.Select(old, addo(s.off, k)), et)
        out = And(i2 >= 0, i2 < s.ln, Not(And(inv(i2) >= 0, inv(i2) < n, pos(inv(i2)) == i2)))
        st.assume(E.quantify(st, [i2], out, f, [elo(i2)], True))
        # the backing array of the argument is overwritten
        E.arr_set(st, s.arr, et, z3.Const(E.fresh_name('del'), old.sort()))
        return SliceV(simp(z3.If(s.arr == 0, z3.IntVal(0), ref)) if intval(s.arr) is None else ref, z3.IntVal(0), n)

    @model('slices.Clone')
    def _(st, call, a):
        et = elem_t(call)
        s = a[0]
        ref = E.new_array(st, et, E.arr_get(st, s.arr, et))
        return SliceV(simp(z3.If(s.arr == 0, z3.IntVal(0), ref)), s.off, s.ln)

    def perm(st, old, new, n, off):
        """new[off..off+n) is a permutation of old[off..off+n)."""
        if not z3.is_const(old):
            o2 = z3.Const(E.fresh_name('old'), old.sort())
            st.assume(o2 == old)
            old = o2
        p = z3.Function(E.fresh_name('perm'), I, I)
        q = z3.Function(E.fresh_name('perm'), I, I)
        i = z3.Int(E.fresh_name('i'))
        rng = lambda x: And(x >= 0, x < n)
        st.assume(z3.ForAll([i], z3.Implies(rng(i), And(rng(p(i)), q(p(i)) == i, z3.Select(new, addo(off, i)) == z3.Select(old, addo(off, p(i))))),
                            patterns=[z3.Select(new, addo(off, i))]))
        st.assume(z3.ForAll([i], z3.Implies(rng(i), And(rng(q(i)), p(q(i)) == i, z3.Select(old, addo(off, i)) == z3.Select(new, addo(off, q(i))))),
                            patterns=[z3.Select(old, addo(off, i))]))
        st.assume(z3.ForAll([i], z3.Implies(Not(rng(i - off)), z3.Select(new, i) == z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        return p, q

    @model('slices.Sort', 'sort.Strings')
    def _(st, call, a):
        s = a[0]
        et = elem_t(call)
        old = E.arr_get(st, s.arr, et)
        new = z3.Const(E.fresh_name('sorted'), old.sort())
        # sorting is a function of the multiset: same content, same result
        perm(st, old, new, s.ln, s.off)
        i, j = z3.Int(E.fresh_name('i')), z3.Int(E.fresh_name('j'))
        if E.sort(et) == S:
            le = lambda x, y: x <= y
        else:
            le = lambda x, y: x <= y
        st.assume(z3.ForAll([i, j], z3.Implies(And(i >= 0, i <= j, j < s.ln), le(z3.Select(new, addo(s.off, i)), z3.Select(new, addo(s.off, j)))),
                            patterns=[multipattern(z3.Select(new, addo(s.off, i)), z3.Select(new, addo(s.off, j)))]))
        E.arr_set(st, s.arr, et, new)
        return Tup([])

    @model('slices.SortFunc', 'slices.SortStableFunc')
    def _(st, call, a):
        s, f = a
        et = elem_t(call)
        stable = call_name(call).startswith('slices.SortStable')
        old = E.arr_get(st, s.arr, et)
        new = z3.Const(E.fresh_name('sorted'), old.sort())
        p, q = perm(st, old, new, s.ln, s.off)
        i, j = z3.Int('so!%d' % E._ctr), z3.Int('sp!%d' % E._ctr)
        E._ctr += 1
        sub = st.fork()
        guard = And(i >= 0, i < j, j < s.ln)
        sub.assume(guard, 'b')
        n1 = len(sub.pc)
        el = lambda k: E.decode(None, z3.Select(new, addo(s.off, k)), et)
        c = E.eval_pure(sub, f, [el(i), el(j)])
        for t in [t for k, t in sub.pc[n1:] if k not in ('r', 'q')]:
            fc = free_consts(t)
            st.assume(z3.ForAll([i, j], z3.Implies(guard, t)) if i.decl().name() in fc or j.decl().name() in fc else t)
        pats = [multipattern(z3.Select(new, addo(s.off, i)), z3.Select(new, addo(s.off, j)))]
        st.assume(z3.ForAll([i, j], z3.Implies(guard, c <= 0), patterns=pats))
        if stable:
            st.assume(z3.ForAll([i, j], z3.Implies(And(guard, c == 0), p(i) < p(j)), patterns=pats))
        E.arr_set(st, s.arr, et, new)
        return Tup([])

    def call_name(call):
        fn = call.get('fn')
        return fn[1] if fn and fn[0] == 'f' else ''

    @model('maps.Clone')
    def _(st, call, a):
        mt = ptypes(call)[0]
        m = a[0]
        r = E.map_snapshot(st, m, mt)
        return simp(z3.If(m == 0, z3.IntVal(0), r)) if intval(m) is None else r

    # ------------------------------------------------------------- regexps
    @model('regexp.MustCompile')
    def _(st, call, a):
        r = E.new_ref()
        E._clo[('regexp', intval(r))] = a[0]
        return r

    # ---------------------------------------------------------------- paths
    @model('path/filepath.Join', 'path.Join')
    def _(st, call, a):
        xs = strs(st, a[0])
        if xs is None:
            return z3.Const(E.fresh_name('pjoin'), S)
        f = E.uf(f'PathJoin{len(xs)}', *([S] * (len(xs) + 1)))
        r = f(*xs)
        return r

    @model('path.Match', 'path/filepath.Match')
    def _(st, call, a):
        # a malformed pattern is reported whatever the name
        ok = E.uf('path.Match', S, S, z3.BoolSort())(a[0], a[1])
        bad = E.uf('path.BadPattern', S, z3.BoolSort())(a[0])
        st.assume(z3.Implies(bad, Not(ok)))
        return Tup([ok, z3.If(bad, new_error(st, 'badpattern'), nilI)])

    def pathfn(n, ident=None):
        @model(n)
        def _(st, call, a, n=n):
            f = E.uf(n, S, S)
            r = f(a[0])
            if n.endswith('Clean') or n.endswith('Base') or n.endswith('Dir'):
                st.assume(z3.Length(r) > 0)
            if n.endswith('Base'):
                st.assume(z3.Implies(And(z3.Length(a[0]) > 0, Not(z3.Contains(a[0], sv('/')))), r == a[0]))
                li = last_index(st, a[0], sv('/'))
                tail = z3.SubString(a[0], li + 1, z3.Length(a[0]) - li - 1)
                st.assume(z3.Implies(And(z3.Length(a[0]) > 0, z3.Length(tail) > 0), r == tail))
            return r
    for n in ('path/filepath.Clean', 'path/filepath.Base', 'path/filepath.Dir', 'path.Base', 'path.Dir', 'path.Clean', 'path/filepath.ToSlash', 'path/filepath.FromSlash'):
        pathfn(n)

    @model('path/filepath.Ext', 'path.Ext')
    def _(st, call, a):
        s = a[0]
        r = E.uf('PathExt', S, S)(s)
        st.assume(z3.SuffixOf(r, s))
        st.assume(z3.Implies(z3.SuffixOf(sv('.go'), s), r == sv('.go')))
        st.assume(z3.Implies(z3.Length(r) > 0, And(z3.SubString(r, 0, 1) == sv('.'), Not(z3.Contains(z3.SubString(r, 1, z3.Length(r)), sv('.'))), Not(z3.Contains(r, sv('/'))))))
        return r

    @model('path/filepath.IsAbs')
    def _(st, call, a):
        return simp(z3.PrefixOf(sv('/'), a[0]))

    # ------------------------------------------------------------- go/version
    # Lang maps a version to its language version; Compare is a total preorder of
    # versions in which the invalid ones come first.
    def vrank(x):
        return E.uf('version.rank', S, z3.RealSort())(x)

    @model('go/version.Lang')
    def _(st, call, a):
        r = simp(E.uf('version.Lang', S, S)(a[0]))
        st.assume(z3.Implies(a[0] == sv(''), r == sv('')))
        st.assume(z3.Implies(Not(E.uf('version.IsValid', S, B)(a[0])), r == sv('')))
        return r

    @model('go/version.IsValid')
    def _(st, call, a):
        r = E.uf('version.IsValid', S, B)(a[0])
        st.assume(z3.Implies(a[0] == sv(''), Not(r)))
        return r

    @model('go/version.Compare')
    def _(st, call, a):
        x, y = vrank(a[0]), vrank(a[1])
        e = vrank(sv(''))
        st.assume(And(x >= e, y >= e))
        return simp(z3.If(x == y, z3.IntVal(0), z3.If(x < y, z3.IntVal(-1), z3.IntVal(1))))

    # ---------------------------------------------------------- suffix arrays
    @model('index/suffixarray.New')
    def _(st, call, a):
        r = E.new_ref()
        t = E.bytes_to_str(st, a[0], E.T(ptypes(call)[0])['elem'])
        E.cwrite(st, ('f', '$sfx', 0), E.cell(st, ('f', '$sfx', 0), STRT), r, t)
        return r

    @model('(*index/suffixarray.Index).Lookup')
    def _(st, call, a):
        t = E.cread(st, E.cell(st, ('f', '$sfx', 0), STRT), a[0], lambda x: x)
        s = E.bytes_to_str(st, a[1], E.T(ptypes(call)[1])['elem'])
        n = z3.Int(E.fresh_name('hits'))
        st.assume(n >= 0)
        st.assume(z3.Implies(a[2] == 1, n == z3.If(And(z3.Length(s) > 0, z3.Contains(t, s)), 1, 0)))
        st.assume(z3.Implies(n > 0, And(z3.Length(s) > 0, z3.Contains(t, s))))
        arr = E.new_array(st, INTT, z3.Const(E.fresh_name('hitarr'), z3.ArraySort(I, I)))
        return SliceV(arr, z3.IntVal(0), n)

    # ------------------------------------------------------------------ sync
    @model('(*sync.Once).Do')
    def _(st, call, a):
        if not isinstance(a[1], Clo):
            raise Undecided('Once.Do of unknown function')
        done = simp(E.ghost_read(st, a[0], 'once', 'bool'))

        def first(s):
            E.ghost_write(s, a[0], 'once', 'bool', T_(True))
            return Push(a[1], [], lambda s, v: Tup([]))
        if z3.is_true(done):
            return Tup([])
        if z3.is_false(done):
            return first(st)
        return Fork([(done, Tup([])), (Not(done), first)])

    # atomics and sync.Map as in a quiescent state: one call at a time
    for nm, ty in (('Bool', 'bool'), ('Int32', 'int'), ('Int64', 'int'), ('Uint32', 'int'), ('Uint64', 'int')):
        def mk(nm, ty):
            w = 'atomic' + nm

            @model(f'(*sync/atomic.{nm}).Load')
            def _(st, call, a):
                return E.ghost_read(st, a[0], w, ty)

            @model(f'(*sync/atomic.{nm}).Store')
            def _(st, call, a):
                E.ghost_write(st, a[0], w, ty, a[1])
                return Tup([])

            @model(f'(*sync/atomic.{nm}).CompareAndSwap')
            def _(st, call, a):
                cur = E.ghost_read(st, a[0], w, ty)
                ok = simp(cur == a[1])
                E.ghost_write(st, a[0], w, ty, simp(z3.If(ok, a[2], cur)))
                return ok

            @model(f'(*sync/atomic.{nm}).Swap')
            def _(st, call, a):
                cur = E.ghost_read(st, a[0], w, ty)
                E.ghost_write(st, a[0], w, ty, a[1])
                return cur

            @model(f'(*sync/atomic.{nm}).Add')
            def _(st, call, a):
                v = simp(E.ghost_read(st, a[0], w, ty) + a[1])
                E.ghost_write(st, a[0], w, ty, v)
                return v
        mk(nm, ty)

    def smap(st, a):
        """(cells and reference) of the content of a sync.Map."""
        _, ref = E.ghost_cell(a, 'smap', 'int')
        key, _ = E.ghost_cell(a, 'smap', 'int')
        n = key[1] + str(key[2])
        anyt = E.anytid()
        kd, kv = ('md', n), ('mv', n)
        c = E.cell(st, kd, anyt)
        v = intval(ref)
        if v is not None and 0 < v and ALLOC0 <= v < 700_000_000 and not any(isinstance(r, tuple) or E.same(r, ref) for r, _ in c.log):
            E.cwrite(st, kd, c, ref, z3.K(IfaceS, T_(False)))   # allocated here: empty
        return (kd, E.cell(st, kd, anyt)), (kv, E.cell(st, kv, (anyt, anyt))), ref

    @model('(*sync.Map).Load')
    def _(st, call, a):
        (kd, cd), (kv, cv), ref = smap(st, a[0])
        has = simp(z3.Select(E.cread(st, cd, ref, lambda t: t), a[1]))
        v = z3.Select(E.cread(st, cv, ref, lambda t: t), a[1])
        return Tup([simp(z3.If(has, v, nilI)), has])

    @model('(*sync.Map).LoadOrStore')
    def _(st, call, a):
        (kd, cd), (kv, cv), ref = smap(st, a[0])
        dom, vals = E.cread(st, cd, ref, lambda t: t), E.cread(st, cv, ref, lambda t: t)
        has = simp(z3.Select(dom, a[1]))

        def fresh(s):
            E.cwrite(s, kd, E.cell(s, kd, E.anytid()), ref, z3.Store(dom, a[1], T_(True)))
            E.cwrite(s, kv, E.cell(s, kv, (E.anytid(), E.anytid())), ref, z3.Store(vals, a[1], a[2]))
            return Tup([a[2], T_(False)])
        return Fork([(has, Tup([simp(z3.Select(vals, a[1])), T_(True)])), (Not(has), fresh)])

    @model('(*sync.Map).Store')
    def _(st, call, a):
        (kd, cd), (kv, cv), ref = smap(st, a[0])
        E.cwrite(st, kd, cd, ref, z3.Store(E.cread(st, cd, ref, lambda t: t), a[1], T_(True)))
        E.cwrite(st, kv, cv, ref, z3.Store(E.cread(st, cv, ref, lambda t: t), a[1], a[2]))
        return Tup([])

    @model('(*sync.Map).Delete')
    def _(st, call, a):
        (kd, cd), (kv, cv), ref = smap(st, a[0])
        E.cwrite(st, kd, cd, ref, z3.Store(E.cread(st, cd, ref, lambda t: t), a[1], T_(False)))
        return Tup([])

    @model('(*sync.Map).LoadAndDelete')
    def _(st, call, a):
        (kd, cd), (kv, cv), ref = smap(st, a[0])
        dom = E.cread(st, cd, ref, lambda t: t)
        has = simp(z3.Select(dom, a[1]))
        v = z3.Select(E.cread(st, cv, ref, lambda t: t), a[1])
        E.cwrite(st, kd, cd, ref, z3.Store(dom, a[1], T_(False)))
        return Tup([simp(z3.If(has, v, nilI)), has])

    for n in ('(*sync.Mutex).Lock', '(*sync.Mutex).Unlock', '(*sync.RWMutex).Lock', '(*sync.RWMutex).Unlock', '(*sync.RWMutex).RLock',
              '(*sync.RWMutex).RUnlock', '(*sync.WaitGroup).Add', '(*sync.WaitGroup).Done', '(*sync.WaitGroup).Wait', '(*sync.Pool).Put', 'log.Printf', 'log.Println'):
        @model(n)
        def _(st, call, a):
            return Tup([])

    # -------------------------------------------------------------- contexts
    @model('context.Background', 'context.TODO')
    def _(st, call, a):
        c = z3.Const('ctx!background', IfaceS)
        st.assume(c != nilI)
        return c

    @model('github.com/google/uuid.NewString')
    def _(st, call, a):
        r = z3.Const(E.fresh_name('uuid'), S)
        st.assume(z3.Length(r) == 36)
        return r

    @model('os.Getenv')
    def _(st, call, a):
        return E.uf('Getenv', S, S)(a[0])

    @model('os.LookupEnv')
    def _(st, call, a):
        v, ok = E.uf('Getenv', S, S)(a[0]), E.uf('HasEnv', S, B)(a[0])
        st.assume(z3.Implies(Not(ok), v == sv('')))
        return Tup([v, ok])

    return M


def enc_z3(w):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in w))


def decode_z3(s):
    """z3's \\u{..} escapes back to characters."""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
