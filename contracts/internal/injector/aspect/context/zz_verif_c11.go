package context

import (
	"fmt"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C11_at_least: raising a level satisfies the requirement, never lowers the
// level, and raises it no further than required.
func C11_at_least(have, need GoLangVersion) {
	g.NoPanic()
	old := have
	have.SetAtLeast(need)
	g.Assert("the requirement is met", Compare(have, need) >= 0)
	g.Assert("never lowered", Compare(have, old) >= 0)
	g.Assert("no higher than required", g.Or(have == old, have == need))
	g.Assert("left alone when high enough", g.Implies(Compare(old, need) >= 0, have == old))
	g.Cover("at least")
}

// C11_any: no requirement is below every level.
func C11_any(v GoLangVersion) {
	g.Assert("no requirement is met by any level", Compare(v, GoLangVersion{}) >= 0)
	g.Assert("no requirement", GoLangVersion{}.IsAny())
	g.Assert("no requirement means no text", g.Implies(v.IsAny(), v == GoLangVersion{}))
}

// C11_ensure: what advice requires is recorded for the compilation.
func C11_ensure(c *context, need GoLangVersion) {
	g.Assume(c != nil && c.minGoLang != nil)
	old := *c.minGoLang
	g.NoPanic()
	c.EnsureMinGoLang(need)
	g.Assert("recorded", Compare(*c.minGoLang, need) >= 0)
	g.Assert("never lowered", Compare(*c.minGoLang, old) >= 0)
	g.Assert("no higher than required", g.Or(*c.minGoLang == old, *c.minGoLang == need))
}

// C11_parse: a level is taken as written, or refused.
func C11_parse(s string) {
	g.NoPanic()
	v, err := ParseGoLangVersion(s)
	g.Assert("taken as written, or refused", g.Implies(err == nil, v.String() == s))
	g.Assert("what is refused is no level", g.Implies(err != nil, v == GoLangVersion{}))
}

// C11_run_order: levels are ordered by number, not by text.
func C11_run_order(a, b, p uint8) {
	x, y := int(a%40), int(b%40)
	v := GoLangVersion{fmt.Sprintf("go1.%d", x)}
	w := GoLangVersion{fmt.Sprintf("go1.%d%s", y, g.If(p%3 == 0 && y > 20, fmt.Sprintf(".%d", p%11), ""))}
	c := Compare(v, w)
	g.Notef("%v against %v: %d", v, w, c)
	g.Assert("ordered by number", (c < 0) == (x < y) && (c > 0) == (x > y))
	u := v
	u.SetAtLeast(w)
	g.Assert("the higher one", u == g.If(x >= y, v, w))
}
