package aspect

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// weaving is a package to compile and the aspects configured for it.
type weaving struct {
	path, name string
	lang       int // go1.N; 0 for none
	files      []file11
	aspects    []aspect11
	cgo        bool     // an assembly file is among the arguments
	texts      []string // the text of the files, when not made from what they declare
}

// file11 is a source file: it declares fN, vN, and calls lib.Do in cN.
type file11 struct {
	funcs []int
	vars  []int
	calls []int
}

type aspect11 struct {
	kind, target int
	advice       []advice11
	internal     bool
	off          bool // the join point does not match
}

type advice11 struct {
	lang  int
	ns    string
	order int
}

const (
	prepend = iota
	appendArgs
	wrap
	assign
	declare
	kinds
)

func (w weaving) ZZShow() string {
	s := fmt.Sprintf("package %s (%s) go1.%d\n%s", w.name, w.path, w.lang, w.yml())
	for i := range w.files {
		s += fmt.Sprintf("-- f%d.go\n%s", i, w.source(i))
	}
	return s
}

func gen_weaving(r *g.Rand) weaving {
	w := weaving{
		path: g.Pick(r, "example.com/app/p", "example.com/app", "example.com/app", "main", "github.com/DataDog/orchestrion/internal/x", "github.com/DataDog/orchestrion/runtime/x", "github.com/DataDog/orchestrionx", "github.com/DataDog/dd-trace-go/v2/x", "gopkg.in/DataDog/dd-trace-go.v1", "gopkg.in/DataDog/dd-trace-go.v10", "github.com/DataDog/dd-trace-go/v2/internal/orchestrion/_integration/x", "github.com/DataDog/go-tuf/client"),
		lang: g.Pick(r, 0, 17, 18, 20, 21, 22, 24), cgo: r.Intn(4) == 0,
	}
	w.name = filepath.Base(w.path)
	if strings.ContainsAny(w.name, ".-") {
		w.name = "p"
	}
	n := 0
	some := func(k int) (out []int) {
		for i := r.Intn(k + 1); i > 0; i-- {
			out = append(out, n)
			n++
		}
		return out
	}
	for k := r.Intn(3); k >= 0; k-- {
		w.files = append(w.files, file11{some(2), some(1), some(1)})
	}
	for k := r.Intn(5); k > 0; k-- {
		a := aspect11{kind: r.Intn(kinds), target: r.Intn(n + 1), internal: r.Intn(3) == 0, off: r.Intn(5) == 0}
		for j := g.If(a.kind == prepend, r.Intn(3), 0); j >= 0; j-- {
			a.advice = append(a.advice, advice11{g.Pick(r, 0, 0, 9, 16, 19, 21, 23, 25), g.Pick(r, "", "", "a", "B", "z"), r.Intn(5) - 2})
		}
		w.aspects = append(w.aspects, a)
	}
	return w
}

func (w weaving) source(i int) string {
	if w.texts != nil {
		return w.texts[i]
	}
	f := w.files[i]
	s := "package " + w.name + "\n\n"
	if len(f.calls) > 0 {
		s += "import \"a.com/lib\"\n\n"
	}
	s += "// file comment\n"
	for _, n := range f.vars {
		s += fmt.Sprintf("var v%d int = 1 // v%d\n", n, n)
	}
	for _, n := range f.funcs {
		s += fmt.Sprintf("\n// f%d is documented.\nfunc f%d(a int) (r int) {\n\tif a > 0 { // odd\n\t\treturn a\n\t}\n\treturn f%d(a + 1)\n}\n", n, n, n)
	}
	for _, n := range f.calls {
		s += fmt.Sprintf("\nfunc c%d() int {\n\treturn lib.Do(%d)\n}\n", n, n)
	}
	return s
}

func lang11(n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("go1.%d", n)
}

func (w weaving) yml() string {
	s := "meta:\n  name: x\n  description: y\naspects:\n"
	if len(w.aspects) == 0 {
		s = strings.TrimSuffix(s, "aspects:\n") + "aspects: []\n"
	}
	for i, a := range w.aspects {
		s += fmt.Sprintf("  - id: a%d\n    tracer-internal: %v\n    join-point:\n", i, a.internal)
		target := a.target
		if a.off {
			target += 1000
		}
		switch a.kind {
		case prepend, declare:
			fn := fmt.Sprintf("function:\n%%s  - name: f%d\n", target)
			if a.kind == prepend {
				s += "      function-body:\n        " + fmt.Sprintf(fn, "          ")
			} else {
				s += "      " + fmt.Sprintf(fn, "        ")
			}
		case assign:
			s += fmt.Sprintf("      declaration-of: %s.v%d\n", w.path, target)
		default:
			s += fmt.Sprintf("      function-call: a.com/lib.%s\n", g.If(a.off, "Other", "Do"))
		}
		s += "    advice:\n"
		for j, x := range a.advice {
			lang := ""
			tmpl := func(in, text string) string {
				out := in + "template: '" + text + "'\n"
				if lang != "" {
					out += in + "lang: " + lang + "\n"
				}
				return out
			}
			lang = lang11(x.lang)
			in := "          "
			id := i*10 + j
			switch a.kind {
			case prepend:
				s += "      - prepend-statements:\n" + tmpl(in, fmt.Sprintf("println(%d)", 7000+id))
				if x.order != 0 {
					s += fmt.Sprintf("%sorder: %d\n", in, x.order)
				}
				if x.ns != "" {
					s += in + "namespace: " + x.ns + "\n"
				}
			case appendArgs:
				s += "      - append-args:\n" + in + "type: int\n" + in + "values:\n" + strings.Replace(tmpl(in+"    ", fmt.Sprint(7000+id)), "    template", "  - template", 1)
			case wrap:
				s += "      - wrap-expression:\n" + tmpl(in, fmt.Sprintf("func(x int) int { println(%d); return x }({{ . }})", 7000+id))
			case assign:
				s += "      - assign-value:\n" + tmpl(in, fmt.Sprint(7000+id))
			case declare:
				s += "      - inject-declarations:\n" + tmpl(in, fmt.Sprintf("const inj%d = %d", 7000+id, 7000+id))
			}
		}
	}
	return s
}

// matched are the numbers of the advice that applies in a file, with the level
// each requires, in the order it is applied to a function body; aspects that
// may not be used in this package are left out.
func (w weaving) matched(i int, only func(aspect11) bool) (ids, langs []int) {
	type entry struct {
		id, lang, order int
		ns              string
	}
	var es []entry
	f := w.files[i]
	for k, a := range w.aspects {
		if a.off || !only(a) {
			continue
		}
		times := 0
		switch a.kind {
		case prepend, declare:
			times = g.If(slices.Contains(f.funcs, a.target), 1, 0)
		case assign:
			times = g.If(slices.Contains(f.vars, a.target), 1, 0)
		default:
			times = len(f.calls)
		}
		for range times {
			for j, x := range a.advice {
				ns := x.ns
				if a.kind != prepend || ns == "" {
					ns = "default"
				}
				es = append(es, entry{k*10 + j, x.lang, x.order, ns})
			}
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.ns != b.ns {
			return a.ns < b.ns
		}
		return a.order < b.order
	})
	for _, e := range es {
		ids = append(ids, e.id)
		langs = append(langs, e.lang)
	}
	return ids, langs
}

// lib11 is the archive of a.com/lib.
var lib11 = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "lib11")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(dir, "lib.go")
	_ = os.WriteFile(f, []byte("package lib\nfunc Do(xs ...int) int { return len(xs) }\nfunc Other() {}\n"), 0o644)
	if o, err := exec.Command("go", "tool", "compile", "-p", "a.com/lib", "-pack", "-o", filepath.Join(dir, "lib.a"), f).CombinedOutput(); err != nil {
		panic(string(o))
	}
	return filepath.Join(dir, "lib.a")
})

type outcome11 struct {
	before, after []string // arguments
	sources       []string // files as they were
	woven         []string // files that are compiled
	dir           string
}

// weaveAll weaves the package.
func (w weaving) weaveAll(compile bool) outcome11 {
	world := newWorld()
	defer world.close()
	world.configure(w.yml())
	var files []string
	for i := range w.files {
		files = append(files, world.write(fmt.Sprintf("src/f%d.go", i), w.source(i)))
	}
	args := world.compileCommand(w.path, lang11(w.lang), map[string]string{"a.com/lib": lib11()}, files...)
	if w.cgo {
		args = append(args, filepath.Join(world.dir, "src/x.s"))
	}
	cmd, err := world.weave(w.path, args)
	g.Notef("%v", err)
	g.Assert("weaving succeeds", err == nil)
	o := outcome11{before: args, after: slices.Clone(cmd.Args()), dir: world.dir}
	for _, f := range files {
		o.sources = append(o.sources, read(f))
	}
	for k, a := range args {
		if slices.Contains(files, a) && k < len(o.after) {
			o.woven = append(o.woven, read(o.after[k]))
		}
	}
	wrapped := false
	for _, a := range w.aspects {
		// arguments appended after a call was wrapped go to what wraps it
		wrapped = wrapped || a.kind == wrap
		compile = compile && !(wrapped && a.kind == appendArgs)
	}
	if compile {
		err := world.compile(slices.DeleteFunc(slices.Clone(o.after), func(a string) bool { return strings.HasSuffix(a, ".s") }))
		g.Notef("%v\n%s", err, strings.Join(o.woven, "\n"))
		g.Assert("the woven package compiles", err == nil)
	}
	return o
}

var number11 = regexp.MustCompile(`\b7\d\d\d\b`)

// applied are the numbers of the advice found in a source file.
func applied(src string) (out []int) {
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "//line ") {
			continue // scratch directories have numbers
		}
		for _, m := range number11.FindAllString(l, -1) {
			n := 0
			fmt.Sscan(m, &n)
			out = append(out, n-7000)
		}
	}
	slices.Sort(out)
	return out
}

// allowed tells the aspects that may be used in the package.
func (w weaving) allowed(a aspect11) bool {
	return !neverWoven(w.path) && (!tracerPkg(w.path) || a.internal)
}

// C06_run_compile: exactly the aspects that may be used in the package are.
func C06_run_compile(w weaving) {
	o := w.weaveAll(false)
	for i := range w.files {
		want, _ := w.matched(i, w.allowed)
		slices.Sort(want)
		all := slices.Clone(want)
		want = slices.DeleteFunc(want, func(id int) bool { // the last value assigned remains
			a := w.aspects[id/10]
			return a.kind == assign && slices.ContainsFunc(all, func(o int) bool { b := w.aspects[o/10]; return o > id && b.kind == assign && b.target == a.target })
		})
		for _, id := range want { // inj7000 = 7000
			if w.aspects[id/10].kind == declare {
				want = append(want, id)
			}
		}
		slices.Sort(want)
		got := applied(strings.ReplaceAll(o.woven[i], "inj7", "inj 7"))
		g.Notef("advice %v in file %d, expected %v\n%s", got, i, want, o.woven[i])
		g.Assert("exactly the aspects that may be used", slices.Equal(got, want))
		g.Assert("sources are left alone", o.sources[i] == w.source(i))
	}
	if neverWoven(w.path) {
		g.Assert("the command is left alone", slices.Equal(o.before, o.after))
	}
}

// C10_run_compile: the woven command differs from the one given by the woven
// files, in their place, and by the language level.
func C10_run_compile(w weaving) {
	o := w.weaveAll(true)
	g.Notef("%q\nbecomes %q", o.before, o.after)
	g.Assert("same number of arguments", len(o.before) == len(o.after))
	n := 0
	for k, a := range o.before {
		switch {
		case strings.HasSuffix(a, ".go"):
			ids, _ := w.matched(n, w.allowed)
			n++
			if len(ids) == 0 {
				g.Assert("files that are not woven are left alone", o.after[k] == a)
			} else {
				g.Assert("woven files take the place of the original", o.after[k] != a && filepath.Base(o.after[k]) == filepath.Base(a) && strings.HasPrefix(o.after[k], filepath.Join(o.dir, "work")))
			}
		case strings.HasPrefix(a, "-lang="):
		default:
			g.Assert("everything else is left alone", o.after[k] == a)
		}
	}
}

// C11_run_compile: the level given to the compiler is the highest of the one
// asked for and those the applied advice requires.
func C11_run_compile(w weaving) {
	o := w.weaveAll(false)
	want := w.lang
	for i := range w.files {
		_, langs := w.matched(i, w.allowed)
		for _, l := range langs {
			want = max(want, l)
		}
	}
	lang := ""
	for _, a := range o.after {
		if l, ok := strings.CutPrefix(a, "-lang="); ok {
			lang = l
		}
	}
	if w.lang == 0 {
		g.Assert("no level stays no level", lang == "")
		return
	}
	g.Notef("%s, expected go1.%d", lang, want)
	g.Assert("the highest level required", lang == lang11(want))
}
