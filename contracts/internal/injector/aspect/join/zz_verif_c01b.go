package join

import (
	"strings"

	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	"github.com/DataDog/orchestrion/internal/injector/typed"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
)

// Contracts of the elementary join points: what matches is not ruled out. What
// a node of a file says about the file and its package is assumed where it is
// used: the names in a node occur in the file's text (appears), and an
// identifier of another package comes from an import (imported).

func imported(p *may.PackageContext, path string) bool {
	return path == "" || path == "unsafe" || path == p.ImportPath || g.Has(p.ImportMap, path)
}

func fileOf(text string, ctx context.AspectContext) *may.FileContext {
	return &may.FileContext{FileContent: []byte(text), PackageName: ctx.Package()}
}

func packageOf(m map[string]string, ctx context.AspectContext) *may.PackageContext {
	return &may.PackageContext{ImportPath: ctx.ImportPath(), TestMain: ctx.TestMain(), ImportMap: m}
}

func passes(pt Point, p *may.PackageContext, f *may.FileContext) bool {
	return pt.PackageMayMatch(p) != may.NeverMatch && pt.FileMayMatch(f) != may.NeverMatch
}

func C01_sym_function_call(i *functionCall, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(i != nil && ctx != nil && ctx.Node() != nil)
	p := packageOf(m, ctx)
	call, ok := ctx.Node().(*dst.CallExpr)
	if !ok || call == nil {
		g.Halt()
	}
	switch fun := call.Fun.(type) {
	case *dst.Ident:
		g.Assume(fun != nil)
		g.Assume(imported(p, fun.Path) && strings.Contains(text, fun.Name))
	case *dst.SelectorExpr:
		g.Assume(fun != nil && fun.Sel != nil)
		g.Assume(strings.Contains(text, fun.Sel.Name))
		if id, ok := fun.X.(*dst.Ident); ok {
			g.Assume(id != nil)
			g.Assume(imported(p, id.Path))
		}
	}
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, p, fileOf(text, ctx)))
	}
}

func C01_sym_declaration_of(i *declarationOf, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(i != nil && ctx != nil && ctx.Node() != nil && ctx.Chain() != nil)
	switch n := ctx.Node().(type) {
	case *dst.FuncDecl:
		g.Assume(n != nil && n.Name != nil)
		g.Assume(strings.Contains(text, n.Name.Name))
	case *dst.ValueSpec:
		g.Assume(n != nil)
		g.Assume(g.Forall(0, len(n.Names), func(k int) bool { return n.Names[k] != nil && strings.Contains(text, n.Names[k].Name) }))
	}
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
	}
}

func C01_sym_import_path(i importPath, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(ctx != nil)
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
	}
}

func C01_sym_package_name(i packageName, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(ctx != nil)
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
	}
}

func C01_sym_test_main(i testMain, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(ctx != nil)
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
	}
}

func C01_sym_configuration(i configuration, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(ctx != nil)
	g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
}

func C01_sym_struct_definition(i *structDefinition, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(i != nil && ctx != nil && ctx.Node() != nil)
	if n, ok := ctx.Node().(*dst.TypeSpec); ok {
		g.Assume(n != nil && n.Name != nil)
		if _, ok := n.Type.(*dst.StructType); ok {
			g.Assume(strings.Contains(text, "struct"))
		}
		g.Assume(strings.Contains(text, n.Name.Name))
	}
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, packageOf(m, ctx), fileOf(text, ctx)))
	}
}

func C01_sym_not(n not, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(n.JoinPoint != nil && ctx != nil)
	p, f := packageOf(m, ctx), fileOf(text, ctx)
	in := n.JoinPoint
	g.Assume(g.Or(in.PackageMayMatch(p) == may.Match, in.PackageMayMatch(p) == may.Unknown, in.PackageMayMatch(p) == may.NeverMatch))
	g.Assume(g.Or(in.FileMayMatch(f) == may.Match, in.FileMayMatch(f) == may.Unknown, in.FileMayMatch(f) == may.NeverMatch))
	g.Assume(sound(in, ctx, p, f))
	if n.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(n, p, f))
	}
}

// ------------------------------------------------------- function declarations

func soundOption(o FunctionOption, i functionInformation, p *may.PackageContext, f *may.FileContext) bool {
	return g.Implies(o.evaluate(i), g.And(o.packageMayMatch(p) != may.NeverMatch, o.fileMayMatch(f) != may.NeverMatch))
}

func passesOption(o FunctionOption, p *may.PackageContext, f *may.FileContext) bool {
	return o.packageMayMatch(p) != may.NeverMatch && o.fileMayMatch(f) != may.NeverMatch
}

func C01_sym_function_name(o functionName, i functionInformation, p *may.PackageContext, text string, name string) {
	g.Assume(p != nil)
	g.Assume(strings.Contains(text, i.Name))
	f := &may.FileContext{FileContent: []byte(text), PackageName: name}
	if o.evaluate(i) {
		g.Cover("matches")
		g.Assert("not ruled out", passesOption(o, p, f))
	}
}

func C01_sym_has_receiver(o hasReceiver, i functionInformation, p *may.PackageContext, text string, name string) {
	g.Assume(p != nil)
	f := &may.FileContext{FileContent: []byte(text), PackageName: name}
	if o.evaluate(i) {
		g.Cover("matches")
		g.Assert("not ruled out", passesOption(o, p, f))
	}
}

func C01_sym_receiver(o *receiver, i functionInformation, p *may.PackageContext, text string, name string) {
	g.Assume(p != nil && o != nil && i.ImportPath == p.ImportPath)
	g.Assume(g.Implies(i.Receiver != nil && o.TypeName.MatchesDefinition(i.Receiver, i.ImportPath), strings.Contains(text, o.TypeName.Name)))
	f := &may.FileContext{FileContent: []byte(text), PackageName: name}
	if o.evaluate(i) {
		g.Cover("matches")
		g.Assert("not ruled out", passesOption(o, p, f))
	}
}

// (signature and signature-contains are left to C01_run_weave.)

// C01_sym_function: a function join point is as sound as its options.
func C01_sym_function(o *functionDeclaration, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(o != nil && ctx != nil && ctx.Node() != nil)
	p, f := packageOf(m, ctx), fileOf(text, ctx)
	info := functionInformation{ImportPath: ctx.ImportPath(), typeResolver: ctx}
	switch n := ctx.Node().(type) {
	case *dst.FuncDecl:
		g.Assume(n != nil && n.Name != nil)
		g.Assume(n.Recv == nil || len(n.Recv.List) != 1 || n.Recv.List[0] != nil)
		if n.Recv != nil && len(n.Recv.List) == 1 {
			info.Receiver = n.Recv.List[0].Type
		}
		info.Name, info.Type = n.Name.Name, n.Type
	case *dst.FuncLit:
		g.Assume(n != nil)
		info.Type = n.Type
	}
	g.Assume(g.Forall(0, len(o.Options), func(k int) bool { return o.Options[k] != nil && soundOption(o.Options[k], info, p, f) }))
	if o.Matches(ctx) {
		g.Cover("matches")
		g.Assert("package not ruled out", o.PackageMayMatch(p) != may.NeverMatch)
		g.Assert("file not ruled out", o.FileMayMatch(f) != may.NeverMatch)
	}
}

func C01_sym_function_body(b *functionBody, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(b != nil && b.Function != nil && ctx != nil && ctx.Node() != nil)
	p, f := packageOf(m, ctx), fileOf(text, ctx)
	parent := ctx.Parent()
	if parent == nil {
		g.Halt()
	}
	g.Assume(sound(b.Function, parent, p, f))
	if b.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(b, p, f))
	}
}

func C01_sym_implements(a *argumentImplements, r *resultImplements, l *finalResultImplements, p *may.PackageContext, text string, name string) {
	g.Assume(p != nil && a != nil && r != nil && l != nil)
	f := &may.FileContext{FileContent: []byte(text), PackageName: name}
	g.Assert("arguments: not ruled out", passesOption(a, p, f))
	g.Assert("results: not ruled out", passesOption(r, p, f))
	g.Assert("last result: not ruled out", passesOption(l, p, f))
}

func C01_sym_value_declaration(i *valueDeclaration, ctx context.AspectContext, m map[string]string, text string) {
	g.Assume(i != nil && ctx != nil && ctx.Node() != nil && ctx.Chain() != nil)
	p := packageOf(m, ctx)
	if n, ok := ctx.Node().(*dst.ValueSpec); ok {
		g.Assume(n != nil)
		g.Assume(g.Implies(n.Type != nil && i.TypeName.Matches(n.Type), imported(p, i.TypeName.ImportPath)))
	}
	if i.Matches(ctx) {
		g.Cover("matches")
		g.Assert("not ruled out", passes(i, p, fileOf(text, ctx)))
	}
}

// C01_frame_type_matches: whether a type expression is the named type depends
// only on the two (join points do not change syntax trees).
func C01_frame_type_matches(t typed.TypeName, e dst.Expr) {
	g.Contract(typed.TypeName.Matches)
	g.Pure()
	t.Matches(e)
}
