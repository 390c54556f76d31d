package aspect

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// libs19 are the archives of the packages that code refers to, by path.
var libs19 = sync.OnceValue(func() map[string]string {
	dir, err := os.MkdirTemp("", "lib19")
	if err != nil {
		panic(err)
	}
	out := map[string]string{}
	for path, name := range names19 {
		base := strings.ReplaceAll(path, "/", "_")
		f := filepath.Join(dir, base+".go")
		_ = os.WriteFile(f, []byte("package "+name+"\nfunc Do(xs ...int) int { return len(xs) }\nfunc Mark(n int, xs ...any) int { return n }\ntype T int\n"), 0o644)
		out[path] = filepath.Join(dir, base+".a")
		if o, err := exec.Command("go", "tool", "compile", "-p", path, "-pack", "-o", out[path], f).CombinedOutput(); err != nil {
			panic(string(o))
		}
	}
	return out
})

var (
	names19 = map[string]string{"a.com/lib": "lib", "b.com/lib": "lib", "c.com/go-kit": "kit"}
	paths19 = []string{"a.com/lib", "b.com/lib", "c.com/go-kit"}
)

// injection is a package, the aspects configured for it, and the package that
// each call should go to, by its number.
type injection struct {
	texts []string
	yml   string
	calls map[int]string
	// whether aspects change the calls that are in the source
	marks map[int]bool
}

func (x injection) ZZShow() string {
	return x.yml + "-- " + strings.Join(x.texts, "\n-- ")
}

func gen_injection(r *g.Rand) injection {
	x := injection{calls: map[int]string{}, marks: map[int]bool{}}
	n := 0
	var funcs, vars, structs []int
	doneA := []int{} // calls of a.com/lib.Do
	global := ""
	if r.Intn(4) == 0 {
		global = g.Pick(r, "lib", "kit", "foo")
	}
	for fi := range 1 + r.Intn(2) {
		var b strings.Builder
		local := map[string]string{} // path -> local name
		more := map[string]string{}  // another local name
		taken := map[string]bool{global: true}
		b.WriteString("package app\n\n")
		imports := ""
		for _, p := range paths19 {
			name := g.Pick(r, "", names19[p], names19[p], "x", "lib", "y", "_", ".", "foo")
			if name == "" || name != "_" && taken[name] {
				continue
			}
			taken[name] = true
			spec := fmt.Sprintf("%s %q", name, p)
			if name == names19[p] && r.Intn(4) > 0 {
				spec = fmt.Sprintf("%q", p)
			}
			if name == "." {
				taken["Do"], taken["T"], taken["Mark"] = true, true, true
			}
			imports += g.Pick(r, "import "+spec+"\n", "import (\n\t"+spec+"\n)\n", "import "+spec+" // why\n")
			local[p] = name
			if r.Intn(6) == 0 { // a second name for it
				if name := g.Pick(r, "x", "lib", "y", "foo", "z"); !taken[name] {
					taken[name] = true
					more[p] = name
					imports += g.Pick(r, fmt.Sprintf("import %s %q\n", name, p), fmt.Sprintf("import %s `%s`\n", name, p))
				}
			}
		}
		b.WriteString(imports)
		if fi == 0 && global != "" {
			fmt.Fprintf(&b, "\nvar %s = 12\n", global)
		}
		call := func(p string, shadowed ...string) string {
			name := local[p]
			if more[p] != "" && (name == "_" || slices.Contains(shadowed, name) || r.Intn(2) == 0) {
				name = more[p]
			}
			if name == "_" || name == "" || slices.Contains(shadowed, name) {
				return fmt.Sprint(1000 + r.Intn(10))
			}
			n++
			x.calls[10000+n] = p
			if p == "a.com/lib" {
				doneA = append(doneA, 10000+n)
			}
			if name == "." {
				return fmt.Sprintf("Do(%d)", 10000+n)
			}
			return fmt.Sprintf("%s.Do(%d)", name, 10000+n)
		}
		for _, p := range paths19 { // imports must be used
			if more[p] != "" {
				fmt.Fprintf(&b, "\nvar _ = %s.T(0)\n", more[p])
			}
			if local[p] != "" && local[p] != "_" {
				fmt.Fprintf(&b, "\nvar _ = %s\n", strings.TrimPrefix(local[p]+".T(0)", ".."))
			}
		}
		for range 1 + r.Intn(3) {
			k := n
			n++
			b.WriteString("\n")
			switch r.Intn(5) {
			case 0:
				fmt.Fprintf(&b, "var v%d int = %s\n", k, call(g.Pick(r, paths19...)))
				vars = append(vars, k)
			case 1:
				fmt.Fprintf(&b, "type s%d struct {\n\ta int\n}\n", k)
				structs = append(structs, k)
			default:
				param := g.Pick(r, "a", "lib", "kit", "foo", "x", "y")
				res := g.Pick(r, "res", "lib", "kit", "foo", "r")
				if res == param {
					res = "res"
				}
				fmt.Fprintf(&b, "func f%d(%s int) (%s int) {\n", k, param, res)
				hide := []string{param, res}
				for range r.Intn(3) {
					switch r.Intn(4) {
					case 0:
						loc := g.Pick(r, "lib", "kit", "foo", "z")
						if slices.Contains(hide, loc) {
							continue
						}
						fmt.Fprintf(&b, "\t%s := %s\n\t_ = %s\n", loc, call(g.Pick(r, paths19...), hide...), loc)
						hide = append(hide, loc)
					case 1:
						fmt.Fprintf(&b, "\tif %s > 0 {\n\t\tlib := %s + 1\n\t\treturn lib + %s\n\t}\n", param, param, call(g.Pick(r, paths19...), append(slices.Clone(hide), "lib")...))
					case 2:
						fmt.Fprintf(&b, "\tfunc(kit int) {\n\t\t%s += kit + %s\n\t}(1)\n", res, call(g.Pick(r, paths19...), append(slices.Clone(hide), "kit")...))
					default:
						fmt.Fprintf(&b, "\t%s += %s\n", res, call(g.Pick(r, paths19...), hide...))
					}
				}
				fmt.Fprintf(&b, "\treturn %s\n}\n", call(g.Pick(r, paths19...), hide...))
				funcs = append(funcs, k)
			}
		}
		x.texts = append(x.texts, b.String())
	}

	// the aspects
	var y strings.Builder
	y.WriteString("meta:\n  name: x\n  description: y\naspects:\n")
	id := 0
	template := func(in, text string, expr bool) string {
		names := map[string]string{}
		imports := ""
		mark := func() string {
			p := g.Pick(r, paths19...)
			name := g.Pick(r, names19[p], "foo", "lib")
			if q, used := names[name]; used {
				p = q
			} else {
				imports += fmt.Sprintf("%s    %s: %s\n", in, name, p)
			}
			names[name] = p
			x.calls[7000+id] = p
			id++
			return fmt.Sprintf("%s.Mark(%d%%s)", name, 7000+id-1)
		}
		t := fmt.Sprintf(mark(), text)
		if !expr && r.Intn(2) == 0 {
			t = strings.ReplaceAll("_ = "+t, "\n", " ") + "; _ = " + fmt.Sprintf(mark(), "")
		} else if !expr {
			t = "_ = " + t
		} else if r.Intn(3) == 0 {
			t = t + " + " + fmt.Sprintf(mark(), "")
		}
		return in + "template: '" + t + "'\n" + in + "imports:\n" + imports
	}
	const in = "          "
	redirected, wrapped := false, false
	for k := range 1 + r.Intn(4) {
		fmt.Fprintf(&y, "  - id: a%d\n    join-point:\n", k)
		switch kind := r.Intn(8); {
		case kind == 0 && len(vars) > 0:
			fmt.Fprintf(&y, "      declaration-of: example.com/app.v%d\n    advice:\n      - assign-value:\n%s", g.Pick(r, vars...), template(in, "", true))
		case kind == 1 && len(structs) > 0:
			p := g.Pick(r, paths19...)
			fmt.Fprintf(&y, "      struct-definition: example.com/app.s%d\n    advice:\n      - add-struct-field:\n%sname: field%d\n%stype: %s.T\n", g.Pick(r, structs...), in, 7000+id, in, p)
			x.calls[7000+id] = p
			id++
		case kind == 2 && len(funcs) > 0:
			fmt.Fprintf(&y, "      function:\n        - name: f%d\n    advice:\n      - inject-declarations:\n%s", g.Pick(r, funcs...), strings.Replace(template(in, "", true), "template: '", fmt.Sprintf("template: 'var inj%d = ", k), 1))
		case kind == 3 && len(funcs) > 0:
			fmt.Fprintf(&y, "      function:\n        - name: f%d\n    advice:\n      - add-blank-import: %s\n", g.Pick(r, funcs...), g.Pick(r, paths19...))
		case kind == 4:
			wrapped = true // what applies to the call later applies to what wraps it
			fmt.Fprintf(&y, "      function-call: a.com/lib.Do\n    advice:\n      - wrap-expression:\n%s", template(in, ", {{ . }}", true))
		case kind == 5 && !wrapped:
			fmt.Fprintf(&y, "      function-call: a.com/lib.Do\n    advice:\n      - append-args:\n%stype: int\n%svalues:\n%s", in, in, strings.Replace(template(in+"      ", "", true), "      template", "    - template", 1))
		case kind == 6 && !redirected && !wrapped:
			redirected = true
			p := g.Pick(r, "b.com/lib", "c.com/go-kit")
			fmt.Fprintf(&y, "      function-call: a.com/lib.Do\n    advice:\n      - replace-function: %s.Do\n", p)
			for _, c := range doneA {
				x.calls[c] = p
			}
		case len(funcs) > 0:
			fmt.Fprintf(&y, "      function-body:\n        function:\n          - name: f%d\n    advice:\n      - prepend-statements:\n%s", g.Pick(r, funcs...), template(in, g.Pick(r, "", ", {{ .Function.Argument 0 }}", ", {{ .Function.Result 0 }}"), false))
		default:
			fmt.Fprintf(&y, "      function:\n        - name: none\n    advice:\n      - add-blank-import: %s\n", g.Pick(r, paths19...))
		}
	}
	x.yml = y.String()
	return x
}

// C19_run_meaning: each name means what it should, in the code that was written
// and in the code that is injected.
func C19_run_meaning(x injection) {
	w := newWorld()
	defer w.close()
	w.configure(x.yml)
	var files []string
	for i, t := range x.texts {
		files = append(files, w.write(fmt.Sprintf("src/f%d.go", i), t))
	}
	args := w.compileCommand("example.com/app", "go1.24", libs19(), files...)
	err := w.compile(args)
	g.Notef("%v", err)
	if err != nil {
		panic("generator: " + err.Error() + x.ZZShow())
	}
	cmd, err := w.weave("example.com/app", args)
	g.Notef("%v", err)
	g.Assert("weaving succeeds", err == nil)
	after := cmd.Args()
	var woven []string
	for k, a := range args {
		if slices.Contains(files, a) {
			woven = append(woven, read(after[k]))
		}
	}
	err = w.compile(after)
	g.Notef("%v\n%s", err, strings.Join(woven, "\n"))
	g.Assert("the woven package compiles", err == nil)
	for id, p := range meanings19(woven) {
		g.Notef("%d refers to %s instead of %s\n%s", id, p, x.calls[id], strings.Join(woven, "\n"))
		g.Assert("names mean what they should", x.calls[id] == p)
	}
}

// meanings19 tells the package that each numbered call goes to.
func meanings19(woven []string) map[int]string {
	fset := token.NewFileSet()
	var asts []*ast.File
	for i, t := range woven {
		f, err := parser.ParseFile(fset, fmt.Sprintf("w%d.go", i), t, 0)
		if err != nil {
			panic(err)
		}
		asts = append(asts, f)
	}
	info := types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(libs19()[path]) })}
	if _, err := conf.Check("example.com/app", fset, asts, &info); err != nil {
		panic(err)
	}
	out := map[int]string{}
	for _, f := range asts {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if len(n.Args) == 0 {
					return true
				}
				lit, ok := n.Args[0].(*ast.BasicLit)
				if !ok {
					return true
				}
				id := 0
				fmt.Sscan(lit.Value, &id)
				var name *ast.Ident
				switch fn := n.Fun.(type) {
				case *ast.SelectorExpr:
					name = fn.Sel
				case *ast.Ident:
					name = fn
				}
				if name == nil || id < 7000 {
					return true
				}
				if obj := info.Uses[name]; obj != nil && obj.Pkg() != nil {
					out[id] = obj.Pkg().Path()
				} else {
					out[id] = "nothing"
				}
			case *ast.Field:
				for _, name := range n.Names {
					id := 0
					if k, _ := fmt.Sscanf(name.Name, "field%d", &id); k == 1 {
						if t, ok := info.Defs[name].Type().(*types.Named); ok {
							out[id] = t.Obj().Pkg().Path()
						}
					}
				}
			}
			return true
		})
	}
	return out
}
