package proxy

import (
	"fmt"
	"slices"
	"strings"

	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C10_new: the arguments are kept as they are; each is found at its place.
func C10_new(args []string, k string) {
	g.Assume(len(args) > 0)
	before := g.SnapSlice(args)
	g.NoPanic()
	g.Inv(func(m map[string]int, idx int) bool {
		return g.Forall(1, idx+1, func(i int) bool { return g.Has(m, args[i]) })
	})
	g.Inv(func(m map[string]int, idx int) bool {
		return g.Implies(g.Has(m, k), m[k] > 0 && m[k] <= idx && args[m[k]] == k)
	})
	g.Inv(func(m map[string]int, idx int) bool {
		return g.Forall(1, idx+1, func(i int) bool { return g.Implies(args[i] == k, m[k] >= i) })
	})
	cmd := NewCommand(args)
	g.Assert("arguments kept", g.SameSlice(cmd.args, before))
	g.Assert("found at its place", g.Implies(g.Has(cmd.paramPos, k), cmd.paramPos[k] > 0 && cmd.paramPos[k] < len(args) && args[cmd.paramPos[k]] == k))
	g.Assert("every argument is found", g.Forall(1, len(args), func(i int) bool { return g.Has(cmd.paramPos, args[i]) }))
	// files come after flags, whose values may have the same text
	g.Assert("found at its last place", g.Forall(1, len(args), func(i int) bool { return g.Implies(args[i] == k, cmd.paramPos[k] >= i) }))
	g.Cover("new")
}

// placed: the index says where the arguments are.
func placed(cmd *command, k string) bool {
	return !g.Has(cmd.paramPos, k) || cmd.paramPos[k] > 0 && cmd.paramPos[k] < len(cmd.args) && cmd.args[cmd.paramPos[k]] == k
}

// C10_replace: exactly the argument named is replaced; if there is none, the
// failure is reported and nothing changes.
func C10_replace(cmd *command, param, val, k string) {
	g.Assume(cmd != nil && cmd.paramPos != nil)
	g.Assume(placed(cmd, param))
	g.Assume(placed(cmd, k))
	had, at := g.Has(cmd.paramPos, param), cmd.paramPos[param]
	hadK, atK := g.Has(cmd.paramPos, k), cmd.paramPos[k]
	before := g.SnapSlice(cmd.args)
	g.NoPanic()
	err := cmd.ReplaceParam(param, val)
	g.Assert("failure reported", (err == nil) == had)
	g.Assert("same number of arguments", len(cmd.args) == len(before))
	g.Assert("the other arguments are left alone", g.Forall(0, len(before), func(i int) bool { return g.Implies(!had || i != at, cmd.args[i] == before[i]) }))
	g.Assert("replaced", !had || cmd.args[at] == val)
	g.Assert("the new argument can be found", g.Implies(had, g.Has(cmd.paramPos, val) && cmd.paramPos[val] == at))
	g.Assert("the others can be found", g.Implies(k != param && k != val, g.Has(cmd.paramPos, k) == hadK && cmd.paramPos[k] == atK))
	g.Assert("the old one is not found any more", g.Implies(had && param != val, !g.Has(cmd.paramPos, param)))
	g.Cover("replace")
}

// C10_go_files: the Go files, all of them.
func C10_go_files(cmd *CompileCommand) {
	g.Assume(cmd != nil)
	g.NoPanic()
	files := cmd.GoFiles()
	g.Assert("Go files", g.Forall(0, len(files), func(i int) bool { return strings.HasSuffix(files[i], ".go") }))
	g.Assert("of the command", g.Forall(0, len(files), func(i int) bool { return g.In(files[i], cmd.Files) }))
	g.Assert("all of them", g.Forall(0, len(cmd.Files), func(i int) bool { return g.Implies(strings.HasSuffix(cmd.Files[i], ".go"), g.In(cmd.Files[i], files)) }))
	g.Cover("go files")
}

// C10_run_tool: the tool is recognised whatever its directory and extension.
func C10_run_tool(dir, ext uint8) {
	d := []string{"", "/usr/lib/go/pkg/tool/linux_amd64/", "C:/x.y/", "./", "/a.compile/"}[dir%5]
	e := []string{"", ".exe", ".bin"}[ext%3]
	for name, want := range map[string]CommandType{"compile": CommandTypeCompile, "link": CommandTypeLink, "asm": CommandTypeOther, "compiler": CommandTypeOther, "linker": CommandTypeOther, "cgo": CommandTypeOther} {
		got, err := parseCommandID(d + name + e)
		g.Notef("%s: %v", d+name+e, got)
		g.Assert("the tool is recognised", err == nil && got == want)
	}
}

type edit10 struct {
	kind int
	at   int
	text string
}

func gen_edit10(r *g.Rand) edit10 {
	return edit10{r.Intn(4), r.Intn(1000), g.Pick(r, "x", "y.go", "/tmp/z.go", "-q", "go1.9", "=", "a=b", "")}
}

type args10 struct {
	args  []string
	eq    bool
	files int
}

func gen_args10(r *g.Rand) args10 {
	a := args10{eq: r.Intn(2) == 0}
	a.args = []string{"/go/compile"}
	flag := func(name, v string) {
		if a.eq {
			a.args = append(a.args, name+"="+v)
		} else {
			a.args = append(a.args, name, v)
		}
	}
	opt := func(f func()) {
		if r.Intn(3) > 0 {
			f()
		}
	}
	dash := g.Pick(r, "-", "-", "--")
	fs := []func(){
		func() { flag(dash+"o", "$WORK/b001/_pkg_.a") }, func() { flag(dash+"trimpath", "$WORK/b001=>;/src=>x") }, func() { flag(dash+"p", g.Pick(r, "main", "example.com/pkg", "./f0.go", "/src/f1.go")) },
		func() { flag(dash+"lang", fmt.Sprintf("go1.%d", r.Intn(30))) }, func() { flag(dash+"buildid", g.Pick(r, "abc/def", "ghi")) }, func() { a.args = append(a.args, dash+"complete") },
		func() { flag(dash+"asmhdr", g.Pick(r, "h.h", "./f0.go", "/src/f0.s")) }, func() { flag(dash+"D", "") }, func() { a.args = append(a.args, dash+"pack") }, func() { a.args = append(a.args, dash+"c=4") }, func() { flag(dash+"goversion", "go1.26x") },
	}
	for n := len(fs); n > 0; n-- {
		i := r.Intn(n)
		opt(fs[i])
		fs[i] = fs[n-1]
	}
	for n := r.Intn(4); n >= 0; n-- {
		a.files++
		a.args = append(a.args, fmt.Sprintf("%s/f%d%s", g.Pick(r, ".", "/src", "$WORK/b001"), n, g.Pick(r, ".go", ".go", ".s", ".test.go")))
	}
	return a
}

// C10_run_history: along any history of edits, each changes exactly the argument
// it names.
func C10_run_history(a args10, edits []edit10) {
	cmd, err := parseCompileCommand(nil, "example.com/pkg", slices.Clone(a.args))
	if err != nil {
		panic(err)
	}
	// what the command should be
	want := slices.Clone(a.args)
	check := func() {
		g.Notef("arguments %q, expected %q", cmd.Args(), want)
		g.Assert("exactly the argument named has changed", slices.Equal(cmd.Args(), want))
	}
	check()
	nfiles := a.files
	g.Assert("all files are known", len(cmd.Files) == nfiles && slices.Equal(cmd.Files, a.args[len(a.args)-nfiles:]))
	// of the same texts, the last is the file
	last := func(at int) bool { return !slices.Contains(want[at+1:], want[at]) }
	for n, e := range edits {
		switch e.kind {
		case 0, 1: // replace a file
			at := len(a.args) - nfiles + e.at%nfiles
			to := fmt.Sprintf("%s%d", e.text, n)
			if !last(at) || slices.Contains(want, to) {
				continue
			}
			err := cmd.ReplaceParam(want[at], to)
			want[at] = to
			g.Assert("no failure", err == nil)
		case 2: // a parameter that is not there
			err := cmd.ReplaceParam(fmt.Sprintf("%s%d?", e.text, n), "boo")
			g.Assert("failure reported", err != nil)
		case 3: // a flag
			name := []string{"-o", "-p", "-lang", "-buildid", "-goversion"}[e.at%5]
			val, found := fmt.Sprintf("v%d", n), false
			for i, x := range a.args[:len(a.args)-nfiles] {
				switch f, _, eq := strings.Cut(x, "="); {
				case f != name && f != "-"+name:
				case eq:
					want[i] = f + "=" + val
					found = true
				default:
					want[i+1] = val
					found = true
				}
			}
			err := cmd.SetFlag(name, val)
			g.Assert("failure reported", (err == nil) == found)
		}
		check()
	}
	// added files come last, and can be replaced
	cmd.AddFiles([]string{"/new/one.go", "/new/two.go"})
	want = append(want, "/new/one.go", "/new/two.go")
	check()
	g.Assert("added files are files", slices.Contains(cmd.GoFiles(), "/new/one.go") && slices.Contains(cmd.GoFiles(), "/new/two.go"))
	g.Assert("no failure", cmd.ReplaceParam("/new/one.go", "/newer/one.go") == nil)
	want[len(want)-2] = "/newer/one.go"
	check()
	g.Cover("history")
}

// C10_run_link: a link command is taken as it is.
func C10_run_link(o, m, i uint8, v bool) {
	out, mode, input := fmt.Sprintf("out%d", o), []string{"exe", "pie", "", "c-shared"}[m%4], fmt.Sprint(i%3)
	args := []string{"/go/link", "-o", "/w/b001/exe/" + out, "-importcfg", "/w/b001/importcfg.link", "-buildmode=" + mode}
	if v {
		args = append(args, "-V=full")
	}
	args = append(args, "/w/b001/_pkg_.a"+input)
	before := slices.Clone(args)
	cmd, err := ParseCommand(nil, "example.com/pkg", args)
	if err != nil {
		panic(err)
	}
	l, ok := cmd.(*LinkCommand)
	g.Assert("a link command", ok && cmd.Type() == CommandTypeLink)
	g.Assert("taken as it is", slices.Equal(cmd.Args(), before))
	g.Assert("its parts", l.Flags.Output == "/w/b001/exe/"+out && l.Flags.ImportCfg == "/w/b001/importcfg.link" && l.Flags.BuildMode == mode && l.ShowVersion() == v && l.WorkDir == "/w" && slices.Equal(l.Inputs, []string{"/w/b001/_pkg_.a" + input}))
	other, err := ParseCommand(nil, "example.com/pkg", append([]string{"/go/asm"}, args[1:]...))
	g.Assert("other tools run as they are", err == nil && other.Type() == CommandTypeOther && slices.Equal(other.Args()[1:], before[1:]) && other.Args()[0] == "/go/asm")
}

// C11_run_command: the compiler is given at least the language level required
// and never a lower one than before; nothing else in the command changes.
func C11_run_command(a args10, need uint8, more uint8) {
	cmd, err := parseCompileCommand(nil, "example.com/pkg", slices.Clone(a.args))
	if err != nil {
		panic(err)
	}
	level := func(args []string) (string, []string) {
		var rest []string
		lang := ""
		for i := 0; i < len(args); i++ {
			f, v, eq := strings.Cut(args[i], "=")
			if f != "-lang" && f != "--lang" {
				rest = append(rest, args[i])
				continue
			}
			if eq {
				lang = v
				continue
			}
			i++
			lang = args[i]
		}
		return lang, rest
	}
	num := func(l string) (n int) { fmt.Sscanf(l, "go1.%d", &n); return }
	for _, n := range []uint8{need, more} {
		lang, rest := level(cmd.Args())
		to := context.GoLangVersion{}
		if n%8 > 0 {
			to = context.MustParseGoLangVersion(fmt.Sprintf("go1.%d", n%32))
		}
		err := cmd.SetLang(to)
		lang2, rest2 := level(cmd.Args())
		g.Notef("level %q, required %v: %q; error %v", lang, to, lang2, err)
		g.Assert("no failure", err == nil)
		g.Assert("nothing else changes", slices.Equal(rest, rest2))
		g.Assert("no level stays no level", (lang == "") == (lang2 == ""))
		if lang != "" {
			want := lang
			if !to.IsAny() && num(lang) < num(to.String()) {
				want = to.String()
			}
			g.Assert("the higher one", lang2 == want)
			g.Assert("and the command knows", cmd.Flags.Lang == lang2)
		}
	}
}
