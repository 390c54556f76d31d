package fingerprint

import (
	"errors"
	"strconv"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// rec is a hash that keeps the text it is fed.
type rec struct{ b strings.Builder }

func (r *rec) Write(p []byte) (int, error)       { return r.b.Write(p) }
func (r *rec) WriteString(s string) (int, error) { return r.b.WriteString(s) }
func (r *rec) Sum(b []byte) []byte               { return append(b, r.b.String()...) }
func (r *rec) Reset()                            { r.b.Reset() }
func (*rec) Size() int                           { return 0 }
func (*rec) BlockSize() int                      { return 1 }

// text is what a value feeds to the hash.
func text(v Hashable) string {
	r := &rec{}
	if err := v.Hash(&Hasher{hash: r}); err != nil {
		return "error"
	}
	return r.b.String()
}

// plain: free of the framing control characters.
func plain(s string) bool {
	return g.And(!strings.Contains(s, "\x01"), !strings.Contains(s, "\x02"), !strings.Contains(s, "\x03"))
}

func C02_string(a, b String) {
	g.NoPanic()
	g.Assert("text is the string", text(a) == string(a))
	g.Assert("distinct strings differ", g.Implies(text(a) == text(b), a == b))
	g.Cover("string")
}

func C02_bool(a, b Bool) {
	g.NoPanic()
	g.Assert("distinct booleans differ", g.Implies(text(a) == text(b), a == b))
	g.Assert("plain", plain(text(a)))
	g.Cover("bool")
}

func C02_int(a, b Int) {
	g.Assume(g.And(a >= 0, b >= 0))
	g.NoPanic()
	g.Assert("distinct integers differ", g.Implies(text(a) == text(b), a == b))
	g.Cover("int")
}

func C02_int_neg(a, b Int) {
	g.Assume(g.And(a < 0, b < 0))
	g.NoPanic()
	g.Assert("distinct integers differ", g.Implies(text(a) == text(b), a == b))
	g.Cover("int")
}

func C02_int_sign(a, b Int) {
	g.Assume(g.And(a < 0, b >= 0))
	g.NoPanic()
	g.Assert("sign shows", text(a) != text(b))
	g.Cover("int")
}

// named feeds a name with up to two text values.
func named(name string, vals ...Hashable) string {
	r := &rec{}
	if err := (&Hasher{hash: r}).Named(name, vals...); err != nil {
		return "error"
	}
	return r.b.String()
}

// The name and the values can be read back from the text, so that no two
// different calls share one.
func C02_named0(n string) {
	g.Assume(plain(n))
	g.NoPanic()
	t := named(n)
	g.Assert("framed", strings.HasPrefix(t, "\x01"))
	name, rest, ok := strings.Cut(t[1:], "\x02")
	g.Assert("name", g.And(ok, name == n))
	g.Assert("no value", strings.HasPrefix(rest, "\x03"))
	g.Cover("named")
}

func C02_named1(n string, a String) {
	g.Assume(g.And(plain(n), plain(string(a))))
	g.NoPanic()
	t := named(n, a)
	g.Assert("framed", strings.HasPrefix(t, "\x01"))
	name, rest, ok := strings.Cut(t[1:], "\x02")
	g.Assert("name", g.And(ok, name == n))
	g.Assert("index", strings.HasPrefix(rest, "\x010\x02"))
	val, end, ok := strings.Cut(rest[3:], "\x03")
	g.Assert("value", g.And(ok, val == string(a)))
	g.Assert("no other value", strings.HasPrefix(end, "\x03"))
	g.Cover("named")
}

func C02_named2(n string, a, b String) {
	g.Assume(g.And(plain(n), plain(string(a)), plain(string(b))))
	g.NoPanic()
	t := named(n, a, b)
	g.Assert("framed", strings.HasPrefix(t, "\x01"))
	name, rest, ok := strings.Cut(t[1:], "\x02")
	g.Assert("name", g.And(ok, name == n))
	g.Assert("first index", strings.HasPrefix(rest, "\x010\x02"))
	val, rest, ok := strings.Cut(rest[3:], "\x03")
	g.Assert("first value", g.And(ok, val == string(a)))
	g.Assert("second index", strings.HasPrefix(rest, "\x011\x02"))
	val, end, ok := strings.Cut(rest[3:], "\x03")
	g.Assert("second value", g.And(ok, val == string(b)))
	g.Assert("no other value", strings.HasPrefix(end, "\x03"))
	g.Cover("named")
}

// C02_append: feeding more text never rewrites what was fed before.
func C02_append(pre string, n string, a, b String) {
	g.NoPanic()
	r := &rec{}
	r.b.WriteString(pre)
	h := &Hasher{hash: r}
	err := h.Named(n, a, b)
	g.Assert("no error", err == nil)
	g.Assert("appends", r.b.String() == pre+named(n, a, b))
	g.Cover("append")
}

// fine: hashing the value succeeds.
func fine(v Hashable) bool { return v.Hash(&Hasher{hash: &rec{}}) == nil }

// C02_named_any: the exact text for any number of values; acc[k] is the text of
// the first k of them.
func C02_named_any(name string, vals []Hashable, acc []string) {
	g.Assume(len(acc) == len(vals)+1)
	g.Assume(acc[0] == "")
	g.Assume(g.Forall(0, len(vals), func(k int) bool {
		return acc[k+1] == acc[k]+"\x01"+strconv.Itoa(k)+"\x02"+text(vals[k])+"\x03"
	}))
	g.Assume(g.Forall(0, len(vals), func(k int) bool { return fine(vals[k]) }))
	r := &rec{}
	g.Inv(func(idx int) bool { return r.b.String() == "\x01"+name+"\x02"+acc[idx+1] })
	err := (&Hasher{hash: r}).Named(name, vals...)
	g.Assert("exact text", g.Implies(err == nil, r.b.String() == "\x01"+name+"\x02"+acc[len(vals)]+"\x03"+name))
	g.Cover("any")
}

// C02_map_sorted: a map is fed as its entries sorted by key, each exactly once.
func C02_map_sorted(m map[string]String) {
	g.NoPanic()
	snap := g.SnapMap(m)
	res := Map(m, func(k string, v String) (string, String) { return k, v })
	g.Assert("as many entries", len(res) == len(m))
	g.Assert("sorted", g.Forall(1, len(res), func(i int) bool { return res[i-1].key <= res[i].key }))
	g.Assert("map untouched", g.SameMap(m, snap))
	g.Cover("map")
}

// C02_run_map: the entries are those of the map.
func C02_run_map(m map[string]String) {
	res := Map(m, func(k string, v String) (string, String) { return "k" + k, v + "v" })
	seen := map[string]bool{}
	for _, e := range res {
		k, ok := strings.CutPrefix(e.key, "k")
		v, has := m[k]
		g.Assert("entries of the map", g.And(ok, has, e.val == v+"v", !seen[k]))
		seen[k] = true
	}
	g.Assert("every entry", len(seen) == len(m))
}

// C02_cast keeps length and order.
func C02_cast(xs []string) {
	g.NoPanic()
	res := Cast(xs, func(s string) String { return String(s) })
	g.Assert("length", len(res) == len(xs))
	g.Assert("elements", g.Forall(0, len(xs), func(i int) bool { return string(res[i]) == xs[i] }))
	g.Cover("cast")
}

// ---------------------------------------------------------------- bounded part

// tree is an arbitrary value; its text must decode to the same tree.
type tree struct {
	kind string // s, i, b, l, m, n
	s    string
	i    int
	kids []*tree
	keys []string
}

func gen_tree(r *g.Rand) *tree { return mkTree(r, 3) }

func mkTree(r *g.Rand, d int) *tree {
	k := r.Intn(6)
	if d == 0 {
		k = r.Intn(3)
	}
	word := func() string {
		s := r.Str()
		for _, c := range []string{"\x01", "\x02", "\x03"} {
			s = strings.ReplaceAll(s, c, "")
		}
		return s
	}
	switch k {
	case 0:
		return &tree{kind: "s", s: word()}
	case 1:
		return &tree{kind: "i", i: g.Pick(r, 0, 1, -1, 10, 11, 7)}
	case 2:
		return &tree{kind: "b", i: r.Intn(2)}
	case 3, 4, 5:
		t := &tree{kind: string("lmn"[k-3]), s: g.Pick(r, "list", "map", "x", word())}
		for n := r.Intn(4); n > 0; n-- {
			key := word()
			if g.In(key, t.keys) {
				continue
			}
			t.keys = append(t.keys, key)
			t.kids = append(t.kids, mkTree(r, d-1))
		}
		return t
	}
	return nil
}

type anyH struct{ Hashable }

func (t *tree) value() Hashable {
	switch t.kind {
	case "s":
		return String(t.s)
	case "i":
		return Int(t.i)
	case "b":
		return Bool(t.i == 1)
	case "l":
		var l List[Hashable]
		for _, k := range t.kids {
			l = append(l, k.value())
		}
		return l
	case "m":
		m := map[string]Hashable{}
		for i, k := range t.kids {
			m[t.keys[i]] = k.value()
		}
		return Map(m, func(k string, h Hashable) (string, Hashable) { return k, h })
	}
	return t
}

// Hash of a named node.
func (t *tree) Hash(h *Hasher) error {
	var vs []Hashable
	for _, k := range t.kids {
		vs = append(vs, k.value())
	}
	return h.Named(t.s, vs...)
}

// canon renders the tree without using the code under test; equal canonical
// forms are the only trees allowed to share a fingerprint text.
func (t *tree) canon() string {
	var b strings.Builder
	q := func(s string) { b.WriteString(itoa(len(s)) + ":" + s) }
	switch t.kind {
	case "s":
		q(t.s)
	case "i":
		q(itoa(t.i))
	case "b":
		q(map[int]string{0: "false", 1: "true"}[t.i])
	case "m":
		idx := make([]int, len(t.kids))
		for i := range idx {
			idx[i] = i
		}
		for i := range idx { // sort by key
			for j := i + 1; j < len(idx); j++ {
				if t.keys[idx[j]] < t.keys[idx[i]] {
					idx[i], idx[j] = idx[j], idx[i]
				}
			}
		}
		b.WriteString("{map")
		q(itoa(len(t.kids)))
		for _, i := range idx {
			b.WriteString("{")
			q(t.keys[i])
			b.WriteString(t.kids[i].canon() + "}")
		}
		b.WriteString("}")
	case "l":
		b.WriteString("{list")
		q(itoa(len(t.kids)))
		for _, k := range t.kids {
			b.WriteString(k.canon())
		}
		b.WriteString("}")
	case "n":
		b.WriteString("{n")
		q(t.s)
		for _, k := range t.kids {
			b.WriteString(k.canon())
		}
		b.WriteString("}")
	}
	return b.String()
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func (t *tree) clone(f func(*tree)) *tree {
	c := *t
	c.kids = nil
	for _, k := range t.kids {
		c.kids = append(c.kids, k.clone(f))
	}
	c.keys = append([]string(nil), t.keys...)
	f(&c)
	return &c
}

// C02_run_trees: trees that differ after a small edit differ in text; a tree
// has one fingerprint, whatever was computed in between.
func C02_run_trees(t *tree, other *tree, edit int, s string) {
	if t == nil || other == nil {
		g.Halt()
	}
	for _, c := range []string{"\x01", "\x02", "\x03"} {
		s = strings.ReplaceAll(s, c, "")
	}
	n := 0
	u := t.clone(func(x *tree) {
		n++
		if edit < 0 || n != edit%7+1 {
			return
		}
		switch {
		case x.kind == "s":
			x.s = s
		case x.kind == "i" || x.kind == "b":
			x.i = 1 - x.i
		case len(x.kids) > 1 && edit%2 == 0:
			x.kids[0], x.kids[1] = x.kids[1], x.kids[0]
		case len(x.kids) > 0 && edit%3 == 0:
			// move the last child into its sibling, or drop it
			last := x.kids[len(x.kids)-1]
			x.kids, x.keys = x.kids[:len(x.kids)-1], x.keys[:len(x.keys)-1]
			if len(x.kids) > 0 {
				y := x.kids[len(x.kids)-1]
				if y.kind == "l" || y.kind == "n" {
					y.kids, y.keys = append(y.kids, last), append(y.keys, "moved")
				}
			}
		case x.kind == "n":
			x.s = s
		default:
			x.kids, x.keys = append(x.kids, &tree{kind: "s", s: s}), append(x.keys, "added")
		}
	})
	for _, v := range []*tree{u, other} {
		same := t.canon() == v.canon()
		if !same && !ambiguous(t) && !ambiguous(v) {
			g.Assert("different values, different text", text(t.value()) != text(v.value()))
		}
		if same {
			g.Assert("equal values, equal text", text(t.value()) == text(v.value()))
		}
	}
	f1, e1 := Fingerprint(t.value())
	_, _ = Fingerprint(other.value())
	_, _ = Fingerprint(failing{})
	f2, e2 := Fingerprint(t.value())
	g.Assert("fingerprint does not fail", e1 == nil && e2 == nil)
	g.Assert("fingerprint is stable", f1 == f2)
	fu, _ := Fingerprint(u.value())
	g.Assert("fingerprint equal exactly when the text is", (fu == f1) == (text(u.value()) == text(t.value())))
}

// ambiguous: a named node called like a built-in collection could spell one.
func ambiguous(t *tree) bool {
	if t.kind == "n" && (t.s == "list" || t.s == "map") {
		return true
	}
	// a named node with one child spells a map entry; a number spells a text
	for _, k := range t.kids {
		if ambiguous(k) {
			return true
		}
	}
	return false
}

type failing struct{}

func (failing) Hash(h *Hasher) error {
	_ = h.Named("partial", String("x"))
	return errors.New("no")
}

// ZZText is text for the contracts of other packages.
func ZZText(v Hashable) string { return text(v) }

// ZZPlain is plain for the contracts of other packages.
func ZZPlain(s string) bool { return plain(s) }
