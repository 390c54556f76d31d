package aspect

import (
	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

type pair02 struct{ a, b *Aspect }

func mkAspect02(r *g.Rand) *Aspect {
	a := &Aspect{ID: g.Pick(r, "", "a", "b"), TracerInternal: r.Intn(2) == 0}
	a.JoinPoint = join.ImportPath(g.Pick(r, "a", "b"))
	for n := r.Intn(3); n > 0; n-- {
		a.Advice = append(a.Advice, advice.AddBlankImport(g.Pick(r, "x", "y")))
	}
	return a
}

func gen_pair02(r *g.Rand) pair02 {
	a := mkAspect02(r)
	if r.Intn(2) == 0 {
		return pair02{a, g.Near(r, a)}
	}
	return pair02{a, mkAspect02(r)}
}

// C02_run_aspects: two aspects have one fingerprint exactly when they are the same.
func C02_run_aspects(p pair02) {
	same := g.Dump(p.a) == g.Dump(p.b)
	g.Assert("equal aspects, equal text; different aspects, different text", (fingerprint.ZZText(p.a) == fingerprint.ZZText(p.b)) == same)
}
