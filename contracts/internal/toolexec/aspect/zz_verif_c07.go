package aspect

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"slices"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// marked is a package with directives that keep code from being woven, and what
// is not kept from it: the calls, and the functions and variables.
type marked struct {
	weaving
	calls, names map[string]bool
	n            int
	b            *strings.Builder
}

func (m marked) ZZShow() string { return m.weaving.ZZShow() }

// directive07 writes a comment, and tells whether it keeps what follows from
// being woven.
func (m *marked) directive(r *g.Rand, in string) bool {
	if r.Intn(3) > 0 {
		return false
	}
	d := g.Pick(r, "//orchestrion:ignore", "//dd:ignore", "//orchestrion:ignore reason", "//dd:ignore //", "//orchestrion:ignore  x",
		"// orchestrion:ignore", "//orchestrion:ignored", "//orchestrion:ignore-x", "//dd:ignored", "//dd:ignore:x", "/*orchestrion:ignore*/", "//orchestrion:ignor", "//orchestrion:span x", "//Orchestrion:ignore", "//x:ignore", "// //orchestrion:ignore", "//dd:orchestrion:ignore", "//orchestrion:")
	for range r.Intn(2) {
		fmt.Fprintf(m.b, "%s// before\n", in)
	}
	fmt.Fprintf(m.b, "%s%s\n", in, d)
	for range r.Intn(2) {
		fmt.Fprintf(m.b, "%s// after\n", in)
	}
	return slices.Contains([]string{"//orchestrion:ignore", "//dd:ignore", "//orchestrion:ignore reason", "//dd:ignore //", "//orchestrion:ignore  x"}, d)
}

func (m *marked) call(ignored bool) string {
	c := fmt.Sprint(10000 + m.n)
	m.n++
	m.calls[c] = !ignored
	return c
}

func (m *marked) stmts(r *g.Rand, in string, depth int, ignored bool) {
	for range 1 + r.Intn(3) {
		no := m.directive(r, in) || ignored
		switch k := r.Intn(8); {
		case k == 0 && depth > 0:
			fmt.Fprintf(m.b, "%sif a > %d {\n", in, m.n)
			m.stmts(r, in+"\t", depth-1, no)
			if r.Intn(2) == 0 {
				fmt.Fprintf(m.b, "%s} else {\n", in)
				m.stmts(r, in+"\t", depth-1, no)
			}
			fmt.Fprintf(m.b, "%s}\n", in)
		case k == 1 && depth > 0:
			fmt.Fprintf(m.b, "%sgo func() {\n", in)
			m.stmts(r, in+"\t", depth-1, no)
			fmt.Fprintf(m.b, "%s}()\n", in)
		case k == 2 && depth > 0:
			fmt.Fprintf(m.b, "%sswitch a {\n", in)
			for i := range 1 + r.Intn(2) {
				skip := m.directive(r, in) || no
				fmt.Fprintf(m.b, "%scase %d:\n", in, i)
				m.stmts(r, in+"\t", depth-1, skip)
			}
			fmt.Fprintf(m.b, "%s}\n", in)
		case k == 3:
			fmt.Fprintf(m.b, "%slib.Do(\n%s\t%s,\n", in, in, m.call(no))
			skip := m.directive(r, in+"\t") || no
			fmt.Fprintf(m.b, "%s\tlib.Do(%s),\n%s)\n", in, m.call(skip), in)
		case k == 4:
			fmt.Fprintf(m.b, "%sa += lib.Do(%s) //orchestrion:ignore\n", in, m.call(no))
		case k == 5:
			c := m.call(no)
			m.calls["outer of "+c] = !no
			fmt.Fprintf(m.b, "%sdefer lib.Do(lib.Do(%s))\n", in, c)
		default:
			fmt.Fprintf(m.b, "%slib.Do(%s)\n", in, m.call(no))
		}
	}
}

func gen_marked(r *g.Rand) marked {
	m := marked{weaving: weaving{path: "example.com/app", name: "app", lang: 24}, calls: map[string]bool{}, names: map[string]bool{}}
	for range 1 + r.Intn(2) {
		m.b = &strings.Builder{}
		ignored := r.Intn(4) == 0 && m.directive(r, "")
		fmt.Fprintf(m.b, "package app\n\nimport \"a.com/lib\"\n\nvar _ = lib.Other\n")
		var f file11
		for range r.Intn(4) {
			m.b.WriteString("\n")
			no := m.directive(r, "") || ignored
			k := m.n
			m.n++
			switch r.Intn(4) {
			case 0:
				fmt.Fprintf(m.b, "var v%d int = %d\n", k, k)
				m.names[fmt.Sprintf("v%d", k)] = !no
				f.vars = append(f.vars, k)
			case 1:
				fmt.Fprintf(m.b, "var (\n")
				for range 1 + r.Intn(2) {
					skip := m.directive(r, "\t") || no
					k := m.n
					m.n++
					fmt.Fprintf(m.b, "\tv%d int = %d\n\n", k, k)
					m.names[fmt.Sprintf("v%d", k)] = !skip
					f.vars = append(f.vars, k)
				}
				fmt.Fprintf(m.b, ")\n")
			default:
				fmt.Fprintf(m.b, "func f%d(a int) {\n", k)
				m.names[fmt.Sprintf("f%d", k)] = !no
				m.stmts(r, "\t", 2, no)
				fmt.Fprintf(m.b, "}\n")
				f.funcs = append(f.funcs, k)
			}
		}
		m.files = append(m.files, f)
		m.texts = append(m.texts, m.b.String())
	}
	m.aspects = []aspect11{{kind: appendArgs, advice: []advice11{{}}}}
	for k := range m.n {
		if m.names[fmt.Sprintf("v%d", k)] || r.Intn(2) == 0 {
			m.aspects = append(m.aspects, aspect11{kind: assign, target: k, advice: []advice11{{}}})
		}
		m.aspects = append(m.aspects, aspect11{kind: prepend, target: k, advice: []advice11{{}}})
	}
	return m
}

// wovenIn07 are the calls, variables and functions that were changed.
func wovenIn07(files []string) map[string]bool {
	woven := map[string]bool{}
	value := func(e ast.Expr) string {
		if l, ok := e.(*ast.BasicLit); ok {
			return l.Value
		}
		return ""
	}
	for _, src := range files {
		f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
		if err != nil {
			panic(err)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if len(n.Args) > 0 {
					woven[value(n.Args[0])] = value(n.Args[len(n.Args)-1]) == "7000"
					if c, ok := n.Args[0].(*ast.CallExpr); ok { // defer lib.Do(lib.Do(x))
						woven["outer of "+value(c.Args[0])] = value(n.Args[len(n.Args)-1]) == "7000"
					}
				}
			case *ast.ValueSpec:
				woven[n.Names[0].Name] = len(n.Values) == 1 && len(value(n.Values[0])) == 4
			case *ast.FuncDecl:
				if len(n.Body.List) > 0 {
					b, ok := n.Body.List[0].(*ast.BlockStmt)
					woven[n.Name.Name] = ok && len(b.List) == 1
				}
			}
			return true
		})
	}
	return woven
}

// C07_run_ignored: what is marked is left as it is, and nothing else is.
func C07_run_ignored(m marked) {
	o := m.weaveAll(true)
	got := wovenIn07(o.woven)
	for c, yes := range m.calls {
		g.Notef("call %s woven: %v\n%s", c, got[c], strings.Join(o.woven, "\n"))
		g.Assert("a call is woven unless it is marked", got[c] == yes)
	}
	for n, yes := range m.names {
		if n[0] == 'v' && !yes || n[0] == 'f' {
			g.Notef("%s woven: %v\n%s", n, got[n], strings.Join(o.woven, "\n"))
			g.Assert("a declaration is woven unless it is marked", got[n] == yes)
		}
	}
	g.Cover("ignored")
}
