package injector

import (
	gocontext "context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice"
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	"github.com/DataDog/orchestrion/internal/injector/typed"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
)

// C01_sym_package_filter: the package filter makes no aspect up and leaves the
// aspects passed in alone. That it keeps what may match is checked by
// C01_run_weave.
func C01_sym_package_filter(i *Injector, aspects []*aspect.Aspect) {
	g.Assume(i != nil)
	g.Assume(g.Forall(0, len(aspects), func(k int) bool { return g.And(aspects[k] != nil, aspects[k].JoinPoint != nil) }))
	before := g.SnapSlice(aspects)
	kept := i.packageFilterAspects(aspects)
	g.Assert("the input is left alone", g.Forall(0, len(aspects), func(k int) bool { return aspects[k] == before[k] }))
	g.Assert("nothing is made up", g.Forall(0, len(kept), func(k int) bool { return g.In(kept[k], before) }))
	g.Cover("filter")
}

// ---------------------------------------------------------------- bounded part

// recorder is advice that only takes note of the nodes it is given.
type recorder struct {
	mu  *sync.Mutex
	log *[]string
}

func (a recorder) Apply(ctx context.AdviceContext) (bool, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	name := ""
	switch n := ctx.Node().(type) {
	case *dst.Ident:
		name = n.Path + "." + n.Name
	case *dst.FuncDecl:
		name = n.Name.Name
	case *dst.TypeSpec:
		name = n.Name.Name
	}
	*a.log = append(*a.log, fmt.Sprintf("%T %s %d", ctx.Node(), name, len(ctx.File().Decls)))
	return false, nil
}
func (recorder) AddedImports() []string         { return nil }
func (recorder) Hash(*fingerprint.Hasher) error { return nil }

var _ advice.Advice = recorder{}

// unfiltered hides the pre-filters of a join point.
type unfiltered struct{ join.Point }

func (unfiltered) PackageMayMatch(*may.PackageContext) may.MatchType { return may.Unknown }
func (unfiltered) FileMayMatch(*may.FileContext) may.MatchType       { return may.Unknown }

var stubs01 = map[string]string{
	"a.com/lib": `package lib
type T struct{ A, B int }
func (T) Go() {}
func (*T) Ptr() error { return nil }
type I interface{ Go() }
type G[X any] struct{ V X }
func Do(int) {}
func Make() *T { return nil }
func Gen[X any](X) {}
var V T
`,
	"b.com/x/lib2": `package lib2
type T struct{ A int }
func (T) Go() {}
func Do(int) {}
func Make() T { return T{} }
`,
	"c.com/via": `package via
import "a.com/lib"
func Make() *lib.T { return nil }
`,
}

// archives01 compiles the stub packages once.
var archives01 = sync.OnceValues(func() (map[string]string, error) {
	dir, err := os.MkdirTemp("", "c01stubs")
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	cfg := filepath.Join(dir, "importcfg")
	text := ""
	for _, p := range []string{"a.com/lib", "b.com/x/lib2", "c.com/via"} {
		base := filepath.Join(dir, strings.ReplaceAll(p, "/", "_"))
		if err := os.WriteFile(base+".go", []byte(stubs01[p]), 0o644); err != nil {
			return nil, err
		}
		if err := os.WriteFile(cfg, []byte(text), 0o644); err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "tool", "compile", "-p", p, "-importcfg", cfg, "-o", base+".a", base+".go")
		if o, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("%w: %s", err, o)
		}
		out[p] = base + ".a"
		text += "packagefile " + p + "=" + base + ".a\n"
	}
	return out, nil
})

type program01 struct {
	files    []string
	imports  []string
	path     string
	name     string
	testMain bool
}

func (p program01) ZZShow() string {
	return fmt.Sprintf("package %s (%s, test main %v)\n%s", p.name, p.path, p.testMain, strings.Join(p.files, "\n--------\n"))
}

var decls01 = []string{
	"func target() {}", "func target[X any](x X) {}", "func target (x int, y string) error { return nil }", "func other() { target() }",
	"func (r T0) Run(a int, b string) {}", "func (r *T0) Run() error { return nil }", "func (T0) target() {}", "type T0 struct{ F int }", "type T0\tstruct {\n}", "type T0 = struct{}",
	"type T0 int", "type T1 struct{ T0 }", "func (r *T1) Run() {}",
	"func call() { {L}Do(1) }", "func call() { go {L}Do(2) }", "func call() { {L} Do(2) }", "func gcall() { {L}Gen[int](1) }", "func gcall() { {L}Gen(1) }", "func m() { x := {L}Make(); x.Go() }", "func m2() { {L}Make().Go() }",
	"func m3() { f := {L}T.Go; f({L}V) }", "func lit() { _ = &{L}T{A: 1} }", "func lit() any { return {L}T{B: 2} }", "var lits = []{L}T{{A: 1}, {B: 2}}", "var ptrs = []*{L}T{{A: 1}}",
	"var v {L}T", "var v, v2 = 1, 2", "var v *{L}T", "var w = {L}V", "const v = 3", "var (\n\tv {L}T\n)", "//dd:span a:b\nfunc target() {}", "// dd:span\nfunc target() {}", "//dd:span\nvar v = func() {}", "func st() {\n\t//dd:span\n\tx := func() {}\n\tx()\n}",
	"/* //dd:span */ func target() {}", "func h(p {L}T, e error) (a any, err error) { return nil, nil }", "func h(p *{L}T) {}", "func h2(x interface{}) *{L}T { return nil }", "func h3(g {L}G[int]) {}", "var f = func(x {L}T) {}", "var f = func() {}", "func f() { func() {}() }",
	"func p(x unsafe.Pointer) uintptr { return unsafe.Sizeof(x) }", "func q(x int, _ string) (bool, error) { return true, nil }", "func emb(x struct{ {L}T }) {}", "func main() {}", "func init() {}",
}

func gen_program01(r *g.Rand) program01 {
	p := program01{path: g.Pick(r, "m.com/app/p", "m.com/app", "a.com/lib/sub", "p"), name: g.Pick(r, "p", "main", "lib"), testMain: r.Intn(6) == 0}
	for k := r.Intn(2) + r.Intn(2); k >= 0; k-- {
		lib := g.Pick(r, "a.com/lib", "a.com/lib", "b.com/x/lib2")
		alias := g.Pick(r, "", "", "zz ", ". ")
		q := map[string]string{"": filepath.Base(lib) + ".", "zz ": "zz.", ". ": ""}[alias]
		body, names := "", map[string]bool{}
		for n := r.Intn(4); n >= 0; n-- {
			d := decls01[r.Intn(len(decls01))]
			if names[d] || lib != "a.com/lib" && (strings.Contains(d, "Gen") || strings.Contains(d, "V ") || strings.Contains(d, "}G[") || strings.Contains(d, "V)") || strings.Contains(d, "B:") || strings.Contains(d, "}V")) {
				continue
			}
			names[d] = true
			body += strings.ReplaceAll(d, "{L}", q) + "\n"
		}
		src := ""
		if r.Intn(5) == 0 {
			src = "//line other.go:1:1\n"
		}
		src += "package " + p.name + "\n"
		if body != "" && strings.Contains(body, q+"Do") || q != "" && strings.Contains(body, q) || q == "" && (strings.Contains(body, "V") || strings.Contains(body, "T{") || strings.Contains(body, "Do(") || strings.Contains(body, "Make")) {
			src += "import " + alias + "\"" + lib + "\"\n"
			p.imports = append(p.imports, lib)
		}
		if strings.Contains(body, "unsafe.") {
			src += "import \"unsafe\"\n"
		}
		p.files = append(p.files, src+body)
	}
	return p
}

func type01(r *g.Rand, ptr bool) typed.TypeName {
	return typed.TypeName{ImportPath: g.Pick(r, "a.com/lib", "a.com/lib", "b.com/x/lib2", "", "m.com/app/p", "unsafe"), Name: g.Pick(r, "T", "T", "T0", "G", "Pointer", "int", "error", "any", "I"), Pointer: ptr && r.Intn(3) == 0}
}

func types01(r *g.Rand) (out []typed.TypeName) {
	for n := r.Intn(3); n > 0; n-- {
		out = append(out, type01(r, true))
	}
	return out
}

func option01(r *g.Rand) join.FunctionOption {
	switch r.Intn(9) {
	case 0, 1:
		return join.Name(g.Pick(r, "target", "Run", "main", "h", "q", ""))
	case 2:
		return join.Signature(types01(r), types01(r))
	case 3:
		return join.SignatureContains(types01(r), types01(r))
	case 4:
		return join.Receiver(typed.TypeName{ImportPath: g.Pick(r, "m.com/app/p", "m.com/app", "a.com/lib"), Name: g.Pick(r, "T0", "T1"), Pointer: r.Intn(2) == 0})
	case 5:
		return join.NoReceiver()
	case 6:
		return join.AnyReceiver()
	case 7:
		return join.ResultImplements("error")
	default:
		return join.FinalResultImplements("error")
	}
}

// point01 is a join point nested at most d deep; method calls only with
// receivers of packages in imports (see C01_KF_method_call).
func point01(r *g.Rand, d int) join.Point {
	n := 22
	if d == 0 {
		n = 17
	}
	switch r.Intn(n) {
	case 0:
		return join.FunctionCall(g.Pick(r, "a.com/lib", "b.com/x/lib2", "", "unsafe", "m.com/app/p"), g.Pick(r, "Do", "Gen", "target", "Make", "Sizeof"))
	case 1, 2, 3, 4:
		var opts []join.FunctionOption
		for k := r.Intn(3); k >= 0; k-- {
			opts = append(opts, option01(r))
		}
		return join.Function(opts...)
	case 5:
		return join.DeclarationOf(g.Pick(r, "m.com/app/p", "m.com/app", "a.com/lib"), g.Pick(r, "target", "v", "w", "lits"))
	case 6:
		return join.ValueDeclaration(type01(r, true))
	case 7:
		return join.Directive("dd:span")
	case 8:
		return join.ImportPath(g.Pick(r, "m.com/app/p", "m.com/app", "p"))
	case 9:
		return join.PackageName(g.Pick(r, "p", "main"))
	case 10:
		return join.PackageFilter(false, g.Pick(r, "m.com/**", "**/p", "m.com/*", "**"))
	case 11:
		return join.StructDefinition(typed.TypeName{ImportPath: g.Pick(r, "m.com/app/p", "m.com/app"), Name: g.Pick(r, "T0", "T1")})
	case 12:
		return join.StructLiteral(type01(r, false), g.Pick(r, join.StructLiteralMatchAny, join.StructLiteralMatchValueOnly, join.StructLiteralMatchPointerOnly))
	case 13:
		return join.StructLiteralField(type01(r, false), g.Pick(r, "A", "B"))
	case 14:
		return join.TestMain(r.Intn(2) == 0)
	case 15:
		return join.Configuration(map[string]string{"k": g.Pick(r, "v", "w")})
	case 16:
		return join.MethodCall(typed.TypeName{ImportPath: g.Pick(r, "a.com/lib", "b.com/x/lib2"), Name: "T"}, "Go", g.Pick(r, join.MethodCallMatchAny, join.MethodCallMatchPointerOnly, join.MethodCallMatchValueOnly))
	case 17:
		return join.Not(point01(r, d-1))
	case 18:
		return join.FunctionBody(point01(r, d-1))
	default:
		var pts []join.Point
		for k := r.Intn(3); k >= 0; k-- {
			pts = append(pts, point01(r, d-1))
		}
		if r.Intn(2) == 0 {
			return join.AllOf(pts...)
		}
		return join.OneOf(pts...)
	}
}

type points01 struct{ pts []join.Point }

func (p points01) ZZShow() string {
	s := ""
	for _, pt := range p.pts {
		s += show01(pt) + "; "
	}
	return s
}

func show01(pt any) string { return strings.ReplaceAll(fmt.Sprintf("%T%+v", pt, pt), "0x", "") }

func gen_points01(r *g.Rand) points01 {
	var p points01
	for k := r.Intn(2); k >= 0; k-- {
		p.pts = append(p.pts, point01(r, 3))
	}
	return p
}

// weave01 lists the nodes each join point is given, and says whether the
// package was type-checked at all.
func weave01(p program01, pts []join.Point) ([]string, error) {
	arch, err := archives01()
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "c01")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var files []string
	for i, src := range p.files {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	imports := map[string]string{}
	for _, i := range p.imports {
		imports[i] = arch[i]
	}
	inj := &Injector{
		ImportPath: p.path, Name: p.name, TestMain: p.testMain, ImportMap: imports, RootConfig: map[string]string{"k": "v"},
		GoVersion: "go1.22",
		Lookup: func(path string) (io.ReadCloser, error) {
			f, ok := arch[path]
			if !ok {
				return nil, errors.New("no such package")
			}
			return os.Open(f)
		},
		ModifiedFile: func(f string) string { return f + ".mod" },
	}
	var mu sync.Mutex
	var log []string
	var as []*aspect.Aspect
	for i, pt := range pts {
		l := recorder{&mu, new([]string)}
		as = append(as, &aspect.Aspect{ID: fmt.Sprint(i), JoinPoint: pt, Advice: []advice.Advice{l}})
	}
	_, _, err = inj.InjectFiles(gocontext.Background(), files, as)
	for i, a := range as {
		for _, s := range *a.Advice[0].(recorder).log {
			log = append(log, fmt.Sprint(i, " ", s))
		}
	}
	sort.Strings(log)
	return log, err
}

// C01_run_weave: leaving the pre-filters out changes nothing.
func C01_run_weave(p program01, pts points01) {
	if runtime.GOOS == "windows" {
		return
	}
	var plain []join.Point
	for _, pt := range pts.pts {
		plain = append(plain, unfiltered{pt})
	}
	want, err := weave01(p, plain)
	if err != nil {
		panic(err)
	}
	got, err := weave01(p, pts.pts)
	if err != nil {
		panic(err)
	}
	if len(want) > 0 {
		g.Cover("matched")
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		g.Note = fmt.Sprintf("without the filters: %q, with them: %q", want, got)
		g.Assert("the filters hide nothing", false)
	}
	g.Assert("the filters hide nothing", true)
}

// C01_KF_method_call: a method call on a value whose type comes from a package
// that the calling package does not import itself.
func C01_KF_method_call() {
	p := program01{files: []string{"package p\nimport \"c.com/via\"\nfunc f() { via.Make().Go() }\n"}, imports: []string{"c.com/via"}, path: "m.com/app", name: "p"}
	pt := join.MethodCall(typed.TypeName{ImportPath: "a.com/lib", Name: "T"}, "Go", join.MethodCallMatchAny)
	want, err := weave01(p, []join.Point{unfiltered{pt}})
	if err != nil || len(want) == 0 {
		panic(fmt.Sprint("no match: ", err))
	}
	got, err := weave01(p, []join.Point{pt})
	g.Assert("the filters hide nothing", err == nil && len(got) == len(want))
}
