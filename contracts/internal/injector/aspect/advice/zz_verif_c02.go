package advice

import (
	"strings"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice/code"
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/typed"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// pieces cuts the text of a value at the end-of-value marks.
func pieces(v fingerprint.Hashable) (a, b, c, d string) {
	t := fingerprint.ZZText(v)
	a, t, _ = strings.Cut(t, "\x03")
	b, t, _ = strings.Cut(t, "\x03")
	c, t, _ = strings.Cut(t, "\x03")
	d, _, _ = strings.Cut(t, "\x03")
	return
}

func agree(x, y fingerprint.Hashable) bool {
	a1, b1, c1, d1 := pieces(x)
	a2, b2, c2, d2 := pieces(y)
	return g.And(a1 == a2, b1 == b2, c1 == c2, d1 == d2)
}

func clean(s ...string) bool {
	ok := true
	for _, x := range s {
		ok = g.And(ok, fingerprint.ZZPlain(x))
	}
	return ok
}

func C02_redirectCall(a, b *redirectCall) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(clean(a.ImportPath, a.Name, b.ImportPath, b.Name))
	g.NoPanic()
	g.Assert("different advice, different text", g.Implies(agree(a, b), g.And(a.ImportPath == b.ImportPath, a.Name == b.Name)))
	g.Cover("ok")
}

func C02_addBlankImport(a, b addBlankImport) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("different advice, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_addStructField(a, b *addStructField) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(clean(a.Name, a.TypeName.Name, a.TypeName.ImportPath, b.Name, b.TypeName.Name, b.TypeName.ImportPath))
	g.NoPanic()
	g.Assert("different advice, different text", g.Implies(agree(a, b), g.And(a.Name == b.Name, a.TypeName == b.TypeName)))
	g.Cover("ok")
}

// ---------------------------------------------------------------- bounded part

type hashed02 struct{ Advice }

func word02(r *g.Rand) string {
	return g.Pick(r, "a", "b", "", "main", "net/http", "x/y", "true", "0", "1", "list", "map", DefaultNamespace)
}

func type02(r *g.Rand) typed.TypeName {
	return typed.TypeName{ImportPath: word02(r), Name: g.Pick(r, "T", "U", "any"), Pointer: r.Intn(2) == 0}
}

func template02(r *g.Rand) *code.Template {
	m := map[string]string{}
	for n := r.Intn(3); n > 0; n-- {
		m[word02(r)] = word02(r)
	}
	return &code.Template{Imports: m, Source: word02(r), Lang: g.Pick(r, context.GoLangVersion{}, context.MustParseGoLangVersion("go1.18"), context.MustParseGoLangVersion("go1.21"))}
}

func mkAdvice02(r *g.Rand) Advice {
	switch r.Intn(8) {
	case 0:
		var ts []*code.Template
		for n := r.Intn(3); n > 0; n-- {
			ts = append(ts, template02(r))
		}
		return &appendArgs{type02(r), ts}
	case 1:
		return &redirectCall{word02(r), word02(r)}
	case 2:
		return &addStructField{word02(r), type02(r)}
	case 3:
		return PrependStmtsWithOrder(template02(r), word02(r), r.Intn(3)-1)
	case 4:
		var ls []string
		for n := r.Intn(3); n > 0; n-- {
			ls = append(ls, word02(r))
		}
		return injectDeclarations{template02(r), ls}
	case 5:
		return addBlankImport(word02(r))
	case 6:
		return &wrapExpression{template02(r)}
	}
	return &assignValue{template02(r)}
}

type pair02 struct{ a, b hashed02 }

func gen_pair02(r *g.Rand) pair02 {
	a := mkAdvice02(r)
	if r.Intn(2) == 0 {
		return pair02{hashed02{a}, hashed02{g.Near(r, a, "template")}}
	}
	for range 60 {
		b := mkAdvice02(r)
		x, y := g.Dump(a), g.Dump(b)
		if x[:min(len(x), 13)] == y[:min(len(y), 13)] {
			return pair02{hashed02{a}, hashed02{b}}
		}
	}
	return pair02{hashed02{a}, hashed02{mkAdvice02(r)}}
}

// C02_run_advice: two pieces of advice have one fingerprint exactly when they
// are the same.
func C02_run_advice(p pair02) {
	same := g.Dump(p.a.Advice, "template") == g.Dump(p.b.Advice, "template")
	g.Assert("equal advice, equal text; different advice, different text", (fingerprint.ZZText(p.a.Advice) == fingerprint.ZZText(p.b.Advice)) == same)
}
