package injector

import (
	"context"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
)

//zz:deps github.com/dave/dst

func marks07(c string) bool {
	return g.Or(c == "//orchestrion:ignore", strings.HasPrefix(c, "//orchestrion:ignore "), c == "//dd:ignore", strings.HasPrefix(c, "//dd:ignore "))
}

// C07_sym_ignored: code is marked when one of the comments in front of it is
// the directive, alone or followed by a blank.
func C07_sym_ignored(ctx context.Context, n *dst.FuncDecl) {
	g.Assume(n != nil)
	comments := n.Decs.Start
	g.Inv(func(rangeindex int) bool {
		return g.Forall(0, rangeindex+1, func(k int) bool { return !marks07(comments[k]) })
	})
	g.Assert("marked by the directive only", isIgnored(ctx, n) == g.Exists(0, len(comments), func(k int) bool { return marks07(comments[k]) }))
	g.Cover("ignored")
}

// C07_sym_statement: the same, for a statement.
func C07_sym_statement(ctx context.Context, n *dst.ExprStmt) {
	g.Assume(n != nil)
	comments := n.Decs.Start
	g.Inv(func(rangeindex int) bool {
		return g.Forall(0, rangeindex+1, func(k int) bool { return !marks07(comments[k]) })
	})
	g.Assert("marked by the directive only", isIgnored(ctx, n) == g.Exists(0, len(comments), func(k int) bool { return marks07(comments[k]) }))
	g.Cover("ignored")
}

// comments07 are the comments in front of a node.
type comments07 []string

func gen_comments07(r *g.Rand) comments07 {
	var c comments07
	for range r.Intn(4) {
		c = append(c, g.Pick(r, "//orchestrion:ignore", "//dd:ignore", "//", "\n", "/* */", "//orchestrion:ign", "// ")+g.Pick(r, "", "", " ", " x", "x", "d", "\t", "-"))
	}
	return c
}

// C07_run_nodes: for every kind of node.
func C07_run_nodes(c comments07, kind int) {
	nodes := []dst.Node{&dst.FuncDecl{}, &dst.GenDecl{}, &dst.ValueSpec{}, &dst.AssignStmt{}, &dst.CallExpr{}, &dst.CompositeLit{}, &dst.File{}, &dst.BlockStmt{}, &dst.CaseClause{}, &dst.Ident{}, &dst.Field{}, &dst.FuncLit{}, &dst.DeferStmt{}, &dst.ReturnStmt{}}
	want := false
	for _, x := range c {
		want = want || marks07(x)
	}
	for _, n := range nodes {
		n.Decorations().End = []string{"//orchestrion:ignore"}
		n.Decorations().Start = dst.Decorations(c)
		g.Assert("marked by the directive only", isIgnored(context.Background(), n) == want)
	}
}
