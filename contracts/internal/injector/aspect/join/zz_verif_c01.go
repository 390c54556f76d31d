package join

import (
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// describes says that p and f describe the package and file ctx's node is in.
func describes(ctx context.AspectContext, p *may.PackageContext, f *may.FileContext) bool {
	return g.And(p.ImportPath == ctx.ImportPath(), p.TestMain == ctx.TestMain(), f.PackageName == ctx.Package())
}

// sound: a join point that matches is ruled out neither for the package nor for the file.
func sound(pt Point, ctx context.AspectContext, p *may.PackageContext, f *may.FileContext) bool {
	return g.Implies(pt.Matches(ctx), g.And(pt.PackageMayMatch(p) != may.NeverMatch, pt.FileMayMatch(f) != may.NeverMatch))
}

func C01_all_of(o allOf, ctx context.AspectContext, p *may.PackageContext, f *may.FileContext) {
	g.Assume(p != nil && f != nil && ctx != nil)
	g.Assume(describes(ctx, p, f))
	g.Assume(g.Forall(0, len(o), func(i int) bool { return sound(o[i], ctx, p, f) }))
	m := o.Matches(ctx)
	if m {
		g.Cover("all-of matches")
	}
	g.Assert("package not ruled out", g.Implies(m, o.PackageMayMatch(p) != may.NeverMatch))
	g.Assert("file not ruled out", g.Implies(m, o.FileMayMatch(f) != may.NeverMatch))
}

func C01_one_of(o oneOf, ctx context.AspectContext, p *may.PackageContext, f *may.FileContext) {
	g.Assume(p != nil && f != nil && ctx != nil)
	g.Assume(describes(ctx, p, f))
	g.Assume(g.Forall(0, len(o), func(i int) bool { return sound(o[i], ctx, p, f) }))
	m := o.Matches(ctx)
	if m {
		g.Cover("one-of matches")
	}
	g.Assert("package not ruled out", g.Implies(m, o.PackageMayMatch(p) != may.NeverMatch))
	g.Assert("file not ruled out", g.Implies(m, o.FileMayMatch(f) != may.NeverMatch))
}
