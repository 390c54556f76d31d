package may

import g "github.com/DataDog/orchestrion/internal/zzghost"

func wf(m MatchType) bool { return m == Match || m == NeverMatch || m == Unknown }

// C01_may_or: a disjunction that matches is never filtered out.
func C01_may_or(a, b MatchType, ma, mb bool) {
	g.Assume(wf(a) && wf(b))
	g.Assume(g.Implies(ma, a != NeverMatch) && g.Implies(mb, b != NeverMatch))
	r := a.Or(b)
	g.Assert("a disjunction that matches is not ruled out", g.Implies(ma || mb, r != NeverMatch))
	g.Assert("result is a match type", wf(r))
	g.Cover("or")
}

// C01_may_and: a conjunction that matches is never filtered out.
func C01_may_and(a, b MatchType, ma, mb bool) {
	g.Assume(wf(a) && wf(b))
	g.Assume(g.Implies(ma, a != NeverMatch) && g.Implies(mb, b != NeverMatch))
	r := a.And(b)
	g.Assert("a conjunction that matches is not ruled out", g.Implies(ma && mb, r != NeverMatch))
	g.Assert("result is a match type", wf(r))
	g.Cover("and")
}

// C01_may_not: a negation that matches is never filtered out, and does not panic.
func C01_may_not(a MatchType, ma bool) {
	g.Assume(wf(a))
	g.Assume(g.Implies(ma, a != NeverMatch))
	g.NoPanic()
	r := a.Not()
	g.Assert("a negation that matches is not ruled out", g.Implies(!ma, r != NeverMatch))
	g.Assert("result is a match type", wf(r))
}

// C01_may_package_imports: only paths that are neither imported nor the package
// itself rule a package out.
func C01_may_package_imports(ctx *PackageContext, path string) {
	g.Assume(ctx != nil)
	r := ctx.PackageImports(path)
	g.Assert("an importing package is not ruled out", g.Implies(path == ctx.ImportPath || g.Has(ctx.ImportMap, path), r != NeverMatch))
	g.Assert("result is a match type", wf(r))
}
