package goflags

import (
	"context"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C08_except: the flags named are removed, all others stay.
func C08_except(f CommandFlags, remove []string, k string) {
	had, v, short := g.Has(f.Long, k), f.Long[k], g.Has(f.Short, k)
	gone := g.Exists(0, len(remove), func(i int) bool { return remove[i] == k })
	g.NoPanic()
	g.Inv(func(res *CommandFlags) bool {
		seen := g.Visited(k)
		shorts := g.Has(res.Short, k) == g.And(short, !gone)
		longs := g.And(g.Has(res.Long, k) == g.And(seen, had, !gone), g.Implies(g.Has(res.Long, k), res.Long[k] == v))
		return g.And(res.Short != nil, g.If(res.Long == nil, g.Has(res.Short, k) == g.And(seen, short, !gone), g.And(shorts, longs)))
	})
	res := f.Except(remove...)
	g.Assert("the others stay", g.Has(res.Long, k) == (had && !gone) && g.Implies(had && !gone, res.Long[k] == v))
	g.Assert("those without value stay", g.Has(res.Short, k) == (short && !gone))
	g.Assert("the flags are not changed", g.Has(f.Long, k) == had && g.Has(f.Short, k) == short)
	g.Cover("except")
}

// commandLine08 is a go command line the go command accepts.
type commandLine08 struct {
	goflags []string
	args    []string
}

func (c commandLine08) ZZShow() string {
	return fmt.Sprintf("GOFLAGS: %q args: %q", c.goflags, c.args)
}

// What the go command documents (go help build, testflag): flags that
// influence what is built, and others.
var (
	buildBools08   = []string{"a", "asan", "linkshared", "modcacherw", "msan", "race", "trimpath", "work", "buildvcs"}
	buildStrings08 = []string{"asmflags", "buildmode", "compiler", "coverpkg", "gccgoflags", "gcflags", "installsuffix", "ldflags", "mod", "modfile", "overlay", "pgo", "pkgdir", "tags", "toolexec"}
	otherBools08   = map[string][]string{
		"build": {"n", "v", "x", "json"}, "install": {"n", "v", "x"}, "run": {"n", "v", "x"}, "clean": {"i", "r", "n", "x", "cache", "testcache", "modcache", "fuzzcache"},
		"test": {"n", "v", "x", "c", "i", "json", "short", "failfast", "benchmem", "fullpath"}, "list": {"compiled", "deps", "e", "export", "find", "m", "test", "u", "v"}, "get": {"t", "u", "v", "x", "tool"},
	}
	otherStrings08 = map[string][]string{
		"build": {"p", "o"}, "install": {"p"}, "run": {"p", "exec"}, "clean": {"p"},
		"test": {"p", "o", "exec", "run", "bench", "count", "timeout", "vet", "coverprofile", "cpu", "parallel", "list"}, "list": {"f", "p"}, "get": {"p"},
	}
	commands08 = []string{"build", "install", "run", "clean", "test", "list", "get"}
)

func gen_commandLine08(r *g.Rand) commandLine08 {
	var c commandLine08
	cmd := g.Pick(r, commands08...)
	dash := func() string { return g.Pick(r, "-", "-", "--") }
	value := func() string {
		return g.Pick(r, "a", "a,b", "x y", "-N -l", "k=v", "", "'q'", "1", "a.go", "false", "-X main.v=1")
	}
	boolean := func(name string, assigned bool) string {
		if assigned {
			return name + "=" + g.Pick(r, "true", "false", "1", "0", "T", "f")
		}
		return name
	}
	for range r.Intn(4) {
		if r.Intn(2) == 0 {
			c.goflags = append(c.goflags, dash()+boolean(g.Pick(r, buildBools08...), r.Intn(3) == 0))
		} else {
			c.goflags = append(c.goflags, dash()+g.Pick(r, buildStrings08...)+"="+value())
		}
	}
	switch r.Intn(8) {
	case 0:
		c.args = append(c.args, dash()+"C", g.Pick(r, "dir", "build", "-x"))
	case 1:
		c.args = append(c.args, dash()+"C="+g.Pick(r, "dir", ""))
	}
	c.args = append(c.args, cmd)
	if r.Intn(12) == 0 {
		c.args = append(c.args, "-C", "dir")
	}
	flags := func() {
		for range r.Intn(5) {
			switch r.Intn(7) {
			case 0, 1:
				c.args = append(c.args, dash()+boolean(g.Pick(r, buildBools08...), r.Intn(3) == 0))
			case 2, 3:
				if name := dash() + g.Pick(r, buildStrings08...); r.Intn(2) == 0 {
					c.args = append(c.args, name+"="+value())
				} else {
					c.args = append(c.args, name, value())
				}
			case 4:
				c.args = append(c.args, dash()+boolean(g.Pick(r, otherBools08[cmd]...), r.Intn(4) == 0))
			default:
				v := value()
				if name := dash() + g.Pick(r, otherStrings08[cmd]...); r.Intn(2) == 0 {
					c.args = append(c.args, name+"="+v)
				} else if strings.HasPrefix(v, "-") { // not told from a flag
					c.args = append(c.args, name, "a")
				} else {
					c.args = append(c.args, name, v)
				}
			}
		}
	}
	flags()
	if r.Intn(8) == 0 {
		c.args = append(c.args, "--")
	} else if r.Intn(4) == 0 {
		return c
	}
	switch cmd {
	case "run":
		c.args = append(c.args, g.Pick(r, [][]string{{"."}, {"a.go"}, {"a.go", "b.go"}, {"example.com/x"}}...)...)
		for range r.Intn(4) {
			c.args = append(c.args, g.Pick(r, "-race", "-tags", "x", "-tags=x", "--", "-gcflags", "-v", "b"))
		}
	case "test":
		for range r.Intn(3) {
			c.args = append(c.args, g.Pick(r, ".", "./...", "example.com/x"))
		}
		if !slices.Contains(c.args, "--") {
			flags()
			if r.Intn(3) == 0 {
				c.args = append(c.args, g.Pick(r, "-args", "--args"))
				for range r.Intn(4) {
					c.args = append(c.args, g.Pick(r, "-race", "-tags", "x", "-tags=x", "--", "-gcflags", "-v", "b"))
				}
			}
		}
	default:
		for range r.Intn(3) {
			c.args = append(c.args, g.Pick(r, ".", "./...", "example.com/x"))
		}
	}
	return c
}

// effective08 tells the build flags in effect, as the flag package has them.
func effective08(cmd string, goflags, args []string) map[string]string {
	set := map[string]string{}
	fs := flag.NewFlagSet("go", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	names := map[string]bool{}
	def := func(name string, isBool, keep bool) {
		if names[name] {
			return
		}
		names[name] = true
		record := func(v string) error {
			if isBool && name != "buildvcs" {
				switch v {
				case "1", "t", "T", "true", "TRUE", "True":
					v = "true"
				case "0", "f", "F", "false", "FALSE", "False":
					v = "false"
				default:
					return fmt.Errorf("invalid: %s", v)
				}
			}
			if keep {
				set[name] = v
			}
			return nil
		}
		if isBool {
			fs.BoolFunc(name, "", record)
		} else {
			fs.Func(name, "", record)
		}
	}
	for _, n := range buildBools08 {
		def(n, true, true)
	}
	for _, n := range buildStrings08 {
		def(n, false, true)
	}
	for _, n := range otherBools08[cmd] {
		def(n, true, false)
	}
	for _, n := range otherStrings08[cmd] {
		def(n, false, false)
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(fs.Parse(goflags))
	if i := slices.IndexFunc(args, func(a string) bool { return a == "-args" || a == "--args" }); i >= 0 && cmd == "test" {
		args = args[:i]
	}
	rest := args
	for len(rest) > 0 {
		must(fs.Parse(rest))
		parsed := len(rest) - fs.NArg()
		if cmd != "test" || parsed > 0 && rest[parsed-1] == "--" {
			break
		}
		rest = fs.Args()
		for len(rest) > 0 && !strings.HasPrefix(rest[0], "-") { // packages
			rest = rest[1:]
		}
	}
	return set
}

var env08 sync.Mutex

// C08_run_flags: the flags passed on to other builds are those in effect for
// the go command.
func C08_run_flags(c commandLine08) {
	env08.Lock()
	defer env08.Unlock()
	var quoted []string
	for _, f := range c.goflags {
		switch {
		case !strings.ContainsAny(f, " '\""):
		case strings.Contains(f, "'"):
			f = `"` + f + `"`
		default:
			f = "'" + f + "'"
		}
		quoted = append(quoted, f)
	}
	old := os.Getenv("GOFLAGS")
	os.Setenv("GOFLAGS", strings.Join(quoted, " "))
	defer os.Setenv("GOFLAGS", old)

	args := c.args
	switch {
	case args[0] == "-C" || args[0] == "--C":
		args = args[2:]
	case strings.HasPrefix(args[0], "-C=") || strings.HasPrefix(args[0], "--C="):
		args = args[1:]
	}
	cmd, args := args[0], args[1:]
	if len(args) > 1 && args[0] == "-C" {
		args = args[2:]
	}
	want := effective08(cmd, c.goflags, args)

	got, err := ParseCommandFlags(context.Background(), os.TempDir(), c.args)
	g.Notef("%+v %v", got, err)
	g.Assert("the command line is accepted", err == nil)
	// the flags are added to those of GOFLAGS
	child := effective08("list", c.goflags, got.Slice())
	g.Notef("%q\n %q instead of\n %q", got.Slice(), child, want)
	g.Assert("child builds have the build flags of the command", fmt.Sprint(child) == fmt.Sprint(want))
	delete(want, "a")
	delete(want, "toolexec")
	without := got.Except("-a", "-toolexec")
	child = effective08("list", nil, without.Slice())
	g.Notef("%q\n %q instead of\n %q", without.Slice(), child, want)
	g.Assert("removed flags are gone, the others stay", fmt.Sprint(child) == fmt.Sprint(want))
	for name, v := range want {
		if val, ok := got.Get("-" + name); ok {
			g.Assert("the value in effect", val == v)
		}
	}
}

// anything08 is any list of arguments.
type anything08 []string

func gen_anything08(r *g.Rand) anything08 {
	var a anything08
	for range r.Intn(5) {
		a = append(a, g.Pick(r, "-C", "-C=", "-C=d", "-Cx", "--C", "--C=", "-", "--", "---", "-=", "-tags", "--tags", "-tags=", "-race", "-race=", "-race=x", "-o", "x", "", "build", "test", "run", "-args", "a.go", "-x"))
	}
	return a
}

// C08_run_anything: no command line makes the parser fail.
func C08_run_anything(a anything08) {
	_, err := ParseCommandFlags(context.Background(), os.TempDir(), a)
	g.Notef("%v", err)
	g.Assert("the command line is accepted", err == nil)
}

// covered08 is a command line that asks for coverage.
type covered08 struct {
	args []string
	want string
}

var module08 = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "mod08")
	if err != nil {
		panic(err)
	}
	for f, text := range map[string]string{
		"go.mod": "module example.com/m\n\ngo 1.24\n", "m.go": "package main\n\nfunc main() {}\n",
		"a/a.go": "package a\n", "a/b/b.go": "package b\n", "t/t.go": "//go:build tagged\n\npackage t\n",
	} {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755)
		_ = os.WriteFile(filepath.Join(dir, f), []byte(text), 0o644)
	}
	return dir
})

func gen_covered08(r *g.Rand) covered08 {
	var c covered08
	cmd := g.Pick(r, "test", "build", "run")
	c.args = []string{cmd}
	add := func(s ...string) { c.args = append(c.args, s...) }
	packages := func(of string) string {
		switch of {
		case "./...":
			return "example.com/m,example.com/m/a,example.com/m/a/b"
		case "./a/...":
			return "example.com/m/a,example.com/m/a/b"
		case "./a":
			return "example.com/m/a"
		}
		return strings.ReplaceAll(of, ".", "example.com/m")
	}
	if r.Intn(3) == 0 {
		add(g.Pick(r, "-v", "-x", "-race=false", "-n"))
	}
	of := "."
	if cmd != "run" {
		of = g.Pick(r, "./...", "./a/...", "./a", ".")
	}
	switch r.Intn(4) {
	case 0: // given
		p := g.Pick(r, "./...", "./a/...", "./a", "std", "example.com/x")
		c.want = p
		if strings.HasPrefix(p, "./") {
			c.want = packages(p)
		}
		if r.Intn(2) == 0 {
			p, c.want = p+",fmt", c.want+",fmt"
		}
		add("-cover", "-coverpkg="+p)
	case 1:
		add("-covermode=atomic")
		c.want = packages(of)
	case 2:
		add("-cover=false")
	default:
		add("-cover")
		c.want = packages(of)
	}
	if r.Intn(3) == 0 {
		add(g.Pick(r, "-v", "-x", "-n"))
	}
	if of != "." || r.Intn(2) == 0 || cmd == "run" {
		add(of)
	}
	if cmd == "run" && r.Intn(2) == 0 {
		add("other", "./a")
	}
	return c
}

// C08_run_cover: child builds cover the packages of the command, wherever
// they are run.
func C08_run_cover(c covered08) {
	env08.Lock()
	defer env08.Unlock()
	old := os.Getenv("GOFLAGS")
	os.Setenv("GOFLAGS", "")
	defer os.Setenv("GOFLAGS", old)
	got, err := ParseCommandFlags(context.Background(), module08(), c.args)
	g.Notef("%q: %q instead of %q (%v)", c.args, got.Long["-coverpkg"], c.want, err)
	g.Assert("the command line is accepted", err == nil)
	g.Assert("the packages covered", got.Long["-coverpkg"] == c.want)
}
