package code

import (
	gocontext "context"
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	"github.com/DataDog/orchestrion/internal/yaml"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
	"github.com/dave/dst/decorator"
	"github.com/dave/dst/decorator/resolver/goast"
	"github.com/dave/dst/dstutil"
	"github.com/goccy/go-yaml/ast"
)

// type21 is a type, as code and as configuration have it.
type type21 struct {
	text  string
	name  string // blank when configuration cannot denote it
	error bool   // it implements error
}

var types21 = []type21{
	{"string", "string", false}, {"int", "int", false}, {"error", "error", true}, {"any", "any", false}, {"interface{}", "any", false},
	{"*string", "*string", false}, {"context.Context", "context.Context", false}, {"*http.Request", "*net/http.Request", false},
	{"http.Request", "net/http.Request", false}, {"**string", "", false}, {"[]string", "", false}, {"func() string", "", false},
	{"chan error", "", false}, {"map[string]error", "", false}, {"MyErr", "MyErr", true}, {"*MyErr", "*MyErr", true}, {"T", "T", false}, {"*T", "*T", false},
	{"T2[int]", "T2", false}, {"*T2[int]", "*T2", false}, {"T3[int, string]", "T3", false}, {"*any", "*any", false}, {"*interface{}", "*any", false},
	{"interface{ M() }", "", false}, {"other.T", "zz.test/other.T", false}, {"*other.T", "*zz.test/other.T", false}, {"*error", "*error", false},
	{"http.T", "net/http.T", false}, {"[2]T", "", false}, {"struct{}", "", false},
}

func pick21(r *g.Rand) type21 {
	if r.Intn(2) == 0 {
		return types21[g.Pick(r, 0, 1, 2, 14, 15, 3, 4)]
	}
	return types21[r.Intn(len(types21))]
}

// group21 has one or several parameters of one type.
type group21 struct {
	names []string
	typ   type21
	dots  bool
}

type fn21 struct {
	name    string // blank for a function literal
	recv    *group21
	params  []group21
	results []group21
	generic bool
}

func list21(groups []group21) string {
	var parts []string
	for _, grp := range groups {
		text := grp.typ.text
		if grp.dots {
			text = "..." + text
		}
		if len(grp.names) != 0 {
			text = strings.Join(grp.names, ", ") + " " + text
		}
		parts = append(parts, text)
	}
	return "(" + strings.Join(parts, ", ") + ")"
}

func (f fn21) source() string {
	sig := list21(f.params)
	if len(f.results) != 0 || len(f.params)%2 == 0 {
		sig += " " + list21(f.results)
	}
	if f.name == "" {
		return "var _ = func" + sig + " { panic(1) }"
	}
	text := "func "
	if f.recv != nil {
		text += list21([]group21{*f.recv}) + " "
	}
	text += f.name
	if f.generic {
		text += "[A any]"
	}
	return text + sig + " { panic(1) }"
}

func (f fn21) ZZShow() string { return f.source() }

func gen_groups21(r *g.Rand, prefix string, params bool) []group21 {
	named := r.Intn(2) == 0
	var res []group21
	n := 0
	for range r.Intn(4) {
		grp := group21{typ: pick21(r)}
		if named {
			for range 1 + r.Intn(3) {
				grp.names = append(grp.names, g.Pick(r, "_", prefix+fmt.Sprint(n), prefix+fmt.Sprint(n)))
				n++
			}
		}
		res = append(res, grp)
	}
	if params && len(res) > 0 && len(res[len(res)-1].names) <= 1 && r.Intn(6) == 0 {
		res[len(res)-1].dots = true
	}
	return res
}

func gen_fn21(r *g.Rand) fn21 {
	f := fn21{name: g.Pick(r, "", "Do", "do", "Main", "ServeHTTP")}
	f.params = gen_groups21(r, "p", true)
	f.results = gen_groups21(r, "r", false)
	if f.name != "" && r.Intn(2) == 0 {
		f.recv = &group21{typ: types21[g.Pick(r, 14, 15, 16, 17, 18, 19)]}
		if r.Intn(3) != 0 {
			f.recv.names = []string{g.Pick(r, "self", "_")}
		}
	}
	f.generic = f.name != "" && f.recv == nil && r.Intn(5) == 0
	return f
}

// item21 is one parameter.
type item21 struct {
	name string
	typ  type21
}

// items21 gives every parameter of the groups; the type of one that has dots cannot be denoted.
func items21(groups []group21) (res []item21) {
	for _, grp := range groups {
		typ := grp.typ
		if grp.dots {
			typ = type21{text: "..." + typ.text}
		}
		if len(grp.names) == 0 {
			res = append(res, item21{"", typ})
		}
		for _, name := range grp.names {
			res = append(res, item21{name, typ})
		}
	}
	return res
}

// at21 is the function as the place where an aspect applies.
type at21 struct {
	context.AdviceContext
	chain *context.NodeChain
}

func (a at21) Chain() *context.NodeChain { return a.chain }
func (a at21) Node() dst.Node            { return a.chain.Node() }
func (a at21) ImportPath() string        { return "zz.test/pkg" }

var myErr21 = func() *types.Named {
	pkg := types.NewPackage("zz.test/pkg", "pkg")
	named := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "MyErr", nil), types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, pkg, "", named), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, pkg, "", types.Typ[types.String])), false)
	named.AddMethod(types.NewFunc(token.NoPos, pkg, "Error", sig))
	return named
}()

func (at21) ResolveType(expr dst.Expr) types.Type {
	switch expr := expr.(type) {
	case *dst.Ident:
		switch {
		case expr.Path == "" && expr.Name == "MyErr":
			return myErr21
		case expr.Path == "" && expr.Name == "error":
			return types.Universe.Lookup("error").Type()
		}
	case *dst.StarExpr:
		if ident, ok := expr.X.(*dst.Ident); ok && ident.Path == "" && ident.Name == "MyErr" {
			return types.NewPointer(myErr21)
		}
	}
	return types.Typ[types.Int]
}

// parse gives the place of the function in a file, and its type there.
func (f fn21) parse() (at at21, typ *dst.FuncType, recv *dst.FieldList, file *dst.File) {
	src := "package pkg\n\nimport (\n\t\"context\"\n\t\"net/http\"\n\t\"zz.test/other\"\n)\n\n" + f.source() + "\n"
	dec := decorator.NewDecoratorWithImports(token.NewFileSet(), "zz.test/pkg", goast.New())
	file, err := dec.Parse(src)
	if err != nil {
		panic(fmt.Errorf("%w\n%s", err, src))
	}
	var chain *context.NodeChain
	dstutil.Apply(file, func(c *dstutil.Cursor) bool {
		if at.chain != nil {
			return false
		}
		chain = chain.Child(c)
		switch node := c.Node().(type) {
		case *dst.FuncDecl:
			at.chain, typ, recv = chain, node.Type, node.Recv
		case *dst.FuncLit:
			at.chain, typ = chain, node.Type
		}
		return at.chain == nil
	}, func(*dstutil.Cursor) bool {
		if chain != nil {
			chain = chain.Parent()
		}
		return true
	})
	return at, typ, recv, file
}

// option21 is one requirement of a join point, and whether it is met.
type option21 struct {
	yaml string
	met  func(f fn21) bool
}

func names21(items []item21) (res []string) {
	for _, it := range items {
		res = append(res, it.typ.name)
	}
	return res
}

func implements21(items []item21) bool {
	return slices.ContainsFunc(items, func(it item21) bool { return it.typ.error })
}

func gen_names21(r *g.Rand, items []item21) []string {
	var res []string
	if r.Intn(3) != 0 { // about those it has
		res = names21(items)
		if r.Intn(3) == 0 && len(res) > 0 {
			res = slices.Delete(res, len(res)-1, len(res))
		}
		if r.Intn(4) == 0 {
			res = append(res, pick21(r).name)
		}
		if r.Intn(6) == 0 && len(res) > 1 {
			res[0], res[len(res)-1] = res[len(res)-1], res[0]
		}
	} else {
		for range r.Intn(3) {
			res = append(res, pick21(r).name)
		}
	}
	for i, name := range res {
		if name == "" {
			res[i] = g.Pick(r, "string", "error")
		}
	}
	return res
}

func gen_option21(r *g.Rand, f fn21) option21 {
	params, results := items21(f.params), items21(f.results)
	switch r.Intn(8) {
	case 0:
		name := g.Pick(r, "Do", "do", "Main", "ServeHTTP", "D")
		return option21{"name: " + name, func(f fn21) bool { return f.name == name }}
	case 1:
		name := g.Pick(r, "zz.test/pkg.MyErr", "*zz.test/pkg.MyErr", "*zz.test/pkg.T", "zz.test/pkg.T", "zz.test/pkg.T2", "*zz.test/pkg.T2", "*zz.test/other.T", "*T", "MyErr")
		return option21{fmt.Sprintf("receiver: %q", name), func(f fn21) bool {
			return f.recv != nil && strings.Replace(name, "zz.test/pkg.", "", 1) == f.recv.typ.name && strings.Contains(name, "zz.test/pkg.")
		}}
	case 2:
		want := r.Intn(2) == 0
		return option21{fmt.Sprintf("receiver: %v", want), func(f fn21) bool { return want == (f.recv != nil) }}
	case 3:
		return option21{"argument-implements: error", func(f fn21) bool { return implements21(items21(f.params)) }}
	case 4:
		return option21{"result-implements: error", func(f fn21) bool { return implements21(items21(f.results)) }}
	case 5:
		return option21{"final-result-implements: error", func(f fn21) bool {
			items := items21(f.results)
			return len(items) > 0 && items[len(items)-1].typ.error
		}}
	default:
		args, returns := gen_names21(r, params), gen_names21(r, results)
		text := fmt.Sprintf("{args: [%s], returns: [%s]}", quoted21(args), quoted21(returns))
		if r.Intn(3) == 0 {
			return option21{"signature-contains: " + text, func(f fn21) bool {
				has := func(items []item21, names []string) bool {
					return slices.ContainsFunc(items, func(it item21) bool { return it.typ.name != "" && slices.Contains(names, it.typ.name) })
				}
				return has(items21(f.params), args) || has(items21(f.results), returns)
			}}
		}
		return option21{"signature: " + text, func(f fn21) bool {
			return slices.Equal(args, names21(items21(f.params))) && slices.Equal(returns, names21(items21(f.results)))
		}}
	}
}

func quoted21(list []string) string {
	var res []string
	for _, s := range list {
		res = append(res, fmt.Sprintf("%q", s))
	}
	return strings.Join(res, ", ")
}

// select21 is a function, and a join point.
type select21 struct {
	fn   fn21
	opts []option21
}

func (s select21) yaml() string {
	var sb strings.Builder
	sb.WriteString("function:\n")
	for _, opt := range s.opts {
		fmt.Fprintf(&sb, "  - %s\n", opt.yaml)
	}
	return sb.String()
}

func (s select21) ZZShow() string { return s.fn.source() + "\n" + s.yaml() }

func gen_select21(r *g.Rand) select21 {
	s := select21{fn: gen_fn21(r)}
	for range 1 + r.Intn(2) {
		s.opts = append(s.opts, gen_option21(r, s.fn))
	}
	return s
}

// C21_run_select: a function is selected when it meets all requirements.
func C21_run_select(s select21) {
	at, _, _, _ := s.fn.parse()
	ctx, dec := yaml.NewDecoderContext(gocontext.Background(), strings.NewReader(s.yaml()))
	var node ast.Node
	if err := dec.DecodeContext(ctx, &node); err != nil {
		panic(err)
	}
	point, err := join.FromYAML(ctx, node)
	g.Notef("error: %v", err)
	g.Assert("the join point is valid", err == nil)
	want := true
	for _, opt := range s.opts {
		want = want && opt.met(s.fn)
	}
	g.Notef("to be selected: %v", want)
	g.Assert("a function is selected when it meets all requirements", point.Matches(at) == want)
}

// call21 is what a template asks for.
type call21 struct {
	method string
	index  int
	name   string
}

// ask21 is a function, and what a template asks for.
type ask21 struct {
	fn    fn21
	calls []call21
}

func (a ask21) ZZShow() string { return fmt.Sprintf("%s\n%v", a.fn.source(), a.calls) }

func gen_ask21(r *g.Rand) ask21 {
	a := ask21{fn: gen_fn21(r)}
	for range 1 + r.Intn(4) {
		c := call21{method: g.Pick(r, "Receiver", "Name", "Argument", "ArgumentOfType", "ArgumentThatImplements", "Result", "ResultOfType", "ResultThatImplements", "LastResultThatImplements", "FinalResultImplements")}
		c.index = r.Intn(6) - r.Intn(2)
		c.name = "error"
		if strings.HasSuffix(c.method, "OfType") {
			c.name = pick21(r).name
			if c.name == "" {
				c.name = g.Pick(r, "[]string", "", "string")
			}
		}
		a.calls = append(a.calls, c)
	}
	return a
}

// flat21 gives every parameter of a field list.
func flat21(list *dst.FieldList) (names []string, exprs []dst.Expr) {
	if list == nil {
		return nil, nil
	}
	for _, field := range list.List {
		if len(field.Names) == 0 {
			names, exprs = append(names, ""), append(exprs, field.Type)
		}
		for _, ident := range field.Names {
			names, exprs = append(names, ident.Name), append(exprs, field.Type)
		}
	}
	return names, exprs
}

// C21_run_ask: templates get the names of the parameters they ask for.
func C21_run_ask(a ask21) {
	at, typ, recv, file := a.fn.parse()
	var fn function = (&dot{context: at}).Function()
	lists := []*dst.FieldList{recv, typ.Params, typ.Results}
	var before [3][]string
	var exprs [3][]dst.Expr
	for i, list := range lists {
		before[i], exprs[i] = flat21(list)
	}
	for _, c := range a.calls {
		var name string
		var err error
		var ok bool
		which, items := 1, items21(a.fn.params)
		if strings.Contains(c.method, "Result") {
			which, items = 2, items21(a.fn.results)
		}
		// The parameters that may be the answer.
		var want []int
		find := func(last bool, preds ...func(type21) bool) {
			for _, pred := range preds {
				at := -1
				for i, it := range items {
					if pred(it.typ) && (last || at < 0) {
						at = i
					}
				}
				if at >= 0 {
					want = append(want, at)
				}
			}
		}
		exact := func(t type21) bool { return t.name == c.name }
		implements := func(t type21) bool { return t.error }
		search := true
		switch c.method {
		case "Receiver":
			name, err = fn.Receiver()
			if a.fn.recv == nil {
				g.Assert("only methods have a receiver", err != nil)
				continue
			}
			which, want, search = 0, []int{0}, false
		case "Name":
			name, err = fn.Name()
			g.Assert("the name is that of the function", name == a.fn.name && err == nil)
			continue
		case "FinalResultImplements":
			ok, err = fn.FinalResultImplements(c.name)
			g.Assert("the final result is the last one", err == nil && ok == (len(items) > 0 && items[len(items)-1].typ.error))
			continue
		case "Argument", "Result":
			search = false
			if c.method == "Argument" {
				name, err = fn.Argument(c.index)
			} else {
				name, err = fn.Result(c.index)
			}
			if c.index < 0 || c.index >= len(items) {
				g.Assert("there is no such item", err != nil)
				continue
			}
			want = []int{c.index}
		case "ArgumentOfType", "ResultOfType":
			if c.method == "ArgumentOfType" {
				name, err = fn.ArgumentOfType(c.name)
			} else {
				name, err = fn.ResultOfType(c.name)
			}
			if c.name == "" || c.name == "[]string" {
				g.Assert("this is no name of a type", err != nil)
				continue
			}
			find(false, exact)
		case "ArgumentThatImplements":
			name, err = fn.ArgumentThatImplements(c.name)
			find(false, exact, implements)
		case "ResultThatImplements":
			name, err = fn.ResultThatImplements(c.name)
			find(false, exact, implements)
		case "LastResultThatImplements":
			name, err = fn.LastResultThatImplements(c.name)
			find(true, exact, implements)
		}
		g.Notef("%v: %q, %v instead of any of %v", c, name, err, want)
		g.Assert("what is asked for can be told", err == nil)
		if len(want) == 0 {
			g.Assert("nothing is found where there is nothing", search && name == "")
			continue
		}
		names, _ := flat21(lists[which])
		at := slices.Index(names, name)
		g.Assert("the name is that of the parameter asked for", name != "" && name != "_" && slices.Contains(want, at))
	}
	seen := map[string]bool{}
	for i, list := range lists {
		names, types := flat21(list)
		g.Notef("%q instead of %q", names, before[i])
		g.Assert("types of parameters are those written", slices.Equal(types, exprs[i]))
		blank := 0
		for j, name := range names {
			was := before[i][j]
			g.Assert("names that are written remain", was == "" || was == "_" || name == was)
			g.Assert("names differ", name == "" || name == "_" || !seen[name])
			g.Assert("names are names", name == "" || token.IsIdentifier(name))
			seen[name] = true
			if name == "" {
				blank++
			}
		}
		g.Assert("all parameters have a name, or none has", blank == 0 || blank == len(names))
	}
	_ = file
}
