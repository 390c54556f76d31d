package pin

import (
	"context"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/injector/config"
	"github.com/DataDog/orchestrion/internal/integrations"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// import23 is an import of a tool file.
type import23 struct {
	path, name   string
	above, after string // comments
}

// tool23 is a module, its tool file, and how it is pinned.
type tool23 struct {
	exists    bool
	broken    bool
	generate  string // its directive
	header    string
	pkg       string
	decls     [][]import23
	paren     bool
	code      string
	requires  string // version of orchestrion in the go.mod file
	toolchain string
	opts      Options
	failAt    int // which of the commands fails
}

func (t tool23) ZZShow() string {
	text := "no tool file"
	if t.exists {
		text = t.source()
	}
	return fmt.Sprintf("%s\nrequires %q toolchain %q NoGenerate: %v NoPrune: %v Validate: %v, command %d fails", text, t.requires, t.toolchain, t.opts.NoGenerate, t.opts.NoPrune, t.opts.Validate, t.failAt)
}

const (
	with23  = "example.com/with"    // has configuration
	with23b = "example.com/with/v2" // has configuration
	none23  = "example.com/none"    // has none
	none23b = "example.com/none/x"  // has none
	deep23  = "example.com/none/deep"
	bad23   = "example.com/bad"  // has invalid configuration
	gone23  = "example.com/gone" // does not exist
)

func gen_tool23(r *g.Rand) tool23 {
	t := tool23{exists: r.Intn(5) != 0, pkg: g.Pick(r, "tools", "tools", "main"), paren: r.Intn(3) != 0, broken: r.Intn(20) == 0}
	t.generate = g.Pick(r, "", "", "//go:generate go run github.com/DataDog/orchestrion pin", "//go:generate go run github.com/DataDog/orchestrion pin -generate -prune=false", "//go:generate go run github.com/DataDog/orchestrion pinned")
	t.header = g.Pick(r, "", "// Header text.\n\n", "//go:generate stringer\n\n")
	paths := []string{orchestrionImportPath, integrations.DatadogTracerV2All, orchestrionImportPath + "/instrument", integrations.DatadogTracerV1, with23, with23b, none23, none23b, deep23, bad23, gone23}
	for range r.Intn(3) {
		var decl []import23
		for range 1 + r.Intn(3) {
			i := r.Intn(len(paths))
			if paths[i] == "" {
				continue
			}
			imp := import23{path: paths[i], name: g.Pick(r, "_", "_", "_", "named", "")}
			if r.Intn(2) == 0 {
				imp.above = "// about " + paths[i]
			}
			imp.after = g.Pick(r, "", "// integration", "// remark on "+paths[i])
			paths[i] = ""
			decl = append(decl, imp)
		}
		if len(decl) > 0 {
			t.decls = append(t.decls, decl)
		}
	}
	t.code = g.Pick(r, "", "", "// Text of x.\nvar x = 1\n")
	t.requires = g.Pick(r, "", "v0.0.1", "v99.0.0")
	t.toolchain = g.Pick(r, "", "go1.24.1")
	t.opts = Options{NoGenerate: r.Intn(2) == 0, NoPrune: r.Intn(2) == 0, Validate: r.Intn(4) == 0}
	t.failAt = -1
	if r.Intn(4) == 0 {
		t.failAt = r.Intn(9)
	}
	return t
}

func (t tool23) source() string {
	var sb strings.Builder
	sb.WriteString(t.header)
	if t.generate != "" {
		sb.WriteString(t.generate + "\n\n")
	}
	fmt.Fprintf(&sb, "//go:build tools\n\npackage %s\n", t.pkg)
	if t.broken {
		sb.WriteString("import (\n")
		return sb.String()
	}
	for _, decl := range t.decls {
		paren := t.paren || len(decl) > 1
		if paren {
			sb.WriteString("\nimport (\n")
		} else {
			sb.WriteString("\n")
		}
		for _, imp := range decl {
			if imp.above != "" {
				sb.WriteString("\t" + imp.above + "\n")
			}
			if !paren {
				sb.WriteString("import ")
			}
			fmt.Fprintf(&sb, "\t%s %q %s\n", imp.name, imp.path, imp.after)
		}
		if paren {
			sb.WriteString(")\n")
		}
	}
	return sb.String() + "\n" + t.code
}

// world23 has stand-ins for the go command and for what lists packages.
var world23 = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "world23")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	write := func(name, text string) {
		_ = os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o755); err != nil {
			panic(err)
		}
	}
	realGo, err := exec.LookPath("go")
	if err != nil {
		panic(err)
	}
	write("bin/go", `#!/bin/sh
# Versions that orchestrion is shipped with
case "$(pwd -P)/" in "$ZZ_DIR"/*) ;; *) exec "`+realGo+`" "$@" ;; esac
for a in "$@"; do
	case "$a" in "$ZZ_DIR"/*) ;; */go.mod) exec "`+realGo+`" "$@" ;; esac
done
n=$(cat "$ZZ_DIR/count" 2>/dev/null || echo 0)
echo $((n+1)) >"$ZZ_DIR/count"
echo "$@" >>"$ZZ_DIR/log"
[ "$n" = "$ZZ_FAIL" ] && { echo failed >"$ZZ_DIR/failed"; exit 1; }
case "$1 $2" in
"env GOMOD") echo "$ZZ_DIR/m/go.mod" ;;
"mod edit") case "$*" in *-json*) cat "$ZZ_DIR/mod.json" ;; esac ;;
"list -m") echo '{"Version":"v2.5.0"}' ;;
esac
exit 0
`)
	write("bin/driver", `#!/bin/sh
cat >/dev/null
roots= pkgs=
for p in "$@"; do
	[ "$p" = -- ] && continue
	case "$p" in /*) f=$(basename "$p") ;; *) f=$(echo "$p" | tr / _) ;; esac
	roots="$roots${roots:+,}\"$p\""
	if [ -d "$ZZ_WORLD/pkgs/$f" ]; then
		pkgs="$pkgs${pkgs:+,}{\"ID\":\"$p\",\"PkgPath\":\"$p\",\"Name\":\"p\",\"GoFiles\":[\"$ZZ_WORLD/pkgs/$f/doc.go\"]}"
	else
		pkgs="$pkgs${pkgs:+,}{\"ID\":\"$p\",\"PkgPath\":\"$p\",\"Errors\":[{\"Pos\":\"\",\"Msg\":\"no such package\",\"Kind\":1}]}"
	fi
done
echo "{\"Compiler\":\"gc\",\"Arch\":\"amd64\",\"Roots\":[$roots],\"Packages\":[$pkgs]}"
`)
	for _, p := range []string{with23, with23b, none23, none23b, deep23, bad23, integrations.DatadogTracerV2All} {
		sub := "pkgs/" + strings.ReplaceAll(p, "/", "_")
		write(sub+"/doc.go", "package p\n")
		if p == bad23 {
			write(sub+"/"+config.FilenameOrchestrionYML, "aspects: [{id: a, join-point: {package-name: main}, advice: [add-blank-import: unsafe]}]\n")
		} else if p != none23 && p != none23b {
			write(sub+"/"+config.FilenameOrchestrionYML, "meta: {name: n, description: d}\naspects: [{id: a, join-point: {package-name: main}, advice: [add-blank-import: unsafe]}]\n")
		}
	}
	return dir
})

// pin pins the module in the directory, and tells which commands it ran.
func (t tool23) pin(dir string) (log []string, failed bool, err error) {
	for _, f := range []string{"log", "count", "failed"} {
		_ = os.Remove(filepath.Join(dir, f))
	}
	env := map[string]string{
		"PATH": filepath.Join(world23(), "bin") + ":" + os.Getenv("PATH"), "ZZ_DIR": dir, "ZZ_WORLD": world23(),
		"ZZ_FAIL": strconv.Itoa(t.failAt), "GOPACKAGESDRIVER": filepath.Join(world23(), "bin/driver"), "PWD": "",
	}
	for k, v := range env {
		if old, ok := os.LookupEnv(k); ok {
			defer os.Setenv(k, old)
		} else {
			defer os.Unsetenv(k)
		}
		os.Setenv(k, v)
	}
	before, _ := os.Getwd()
	if err := os.Chdir(filepath.Join(dir, "m")); err != nil {
		panic(err)
	}
	defer os.Chdir(before)
	opts := t.opts
	opts.Writer, opts.ErrWriter = io.Discard, io.Discard
	stderr := os.Stderr
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stderr.Close(); os.Stderr = stderr }()
	err = PinOrchestrion(context.Background(), opts)
	text, _ := os.ReadFile(filepath.Join(dir, "log"))
	_, statErr := os.Stat(filepath.Join(dir, "failed"))
	return strings.Split(strings.TrimSpace(string(text)), "\n"), statErr == nil, err
}

// expected are the imports after pinning.
func (t tool23) expected() map[string]int {
	want := map[string]int{orchestrionImportPath: 1, integrations.DatadogTracerV2All: 1}
	if t.exists {
		for _, imp := range slices.Concat(t.decls...) {
			switch imp.path {
			case orchestrionImportPath + "/instrument", integrations.DatadogTracerV1:
			case none23, none23b, gone23:
				if t.opts.NoPrune {
					want[imp.path] = 1
				}
			case bad23:
				if t.opts.NoPrune || !t.opts.Validate {
					want[imp.path] = 1
				}
			default:
				want[imp.path] = 1
			}
		}
	}
	return want
}

// C23_run_pin: pinning adds what is missing, removes what is not needed, and
// keeps everything else.
func C23_run_pin(t tool23) {
	dir, err := os.MkdirTemp(world23(), "d")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	_ = os.Mkdir(filepath.Join(dir, "m"), 0o755)
	toolFile := filepath.Join(dir, "m", config.FilenameOrchestrionToolGo)
	before := ""
	if t.exists {
		before = t.source()
		_ = os.WriteFile(toolFile, []byte(before), 0o644)
	}
	requires := fmt.Sprintf(`{"Path": %q, "Version": "v2.3.0"}`, integrations.DatadogTracerV2)
	if t.requires != "" {
		requires += fmt.Sprintf(`, {"Path": %q, "Version": %q}`, orchestrionImportPath, t.requires)
	}
	_ = os.WriteFile(filepath.Join(dir, "mod.json"), []byte(fmt.Sprintf(`{"Go": "1.24.0", "Toolchain": %q, "Require": [%s]}`, t.toolchain, requires)), 0o644)
	_ = os.WriteFile(filepath.Join(dir, "m/go.mod"), []byte("module example.com/m\n"), 0o644)

	log, failed, err := t.pin(dir)
	text, readErr := os.ReadFile(toolFile)
	after := string(text)
	g.Notef("error: %v\ncommands: %q\n%s", err, log, after)
	var left []string
	entries, _ := os.ReadDir(filepath.Join(dir, "m"))
	for _, e := range entries {
		left = append(left, e.Name())
	}
	g.Assert("no other files are left", slices.Equal(left, []string{"go.mod", config.FilenameOrchestrionToolGo}) || readErr != nil && slices.Equal(left, []string{"go.mod"}))

	if t.exists && t.broken {
		g.Assert("a tool file that cannot be read is an error, and is left as it is", err != nil && after == before)
		return
	}
	g.Assert("failures are reported", (err != nil) == failed)
	if failed && after == before {
		return
	}
	fset := token.NewFileSet()
	file, parseErr := parser.ParseFile(fset, toolFile, text, parser.ParseComments)
	g.Assert("the tool file is valid", readErr == nil && parseErr == nil)

	// Imports
	already := map[string]bool{}
	if t.exists {
		for _, imp := range slices.Concat(t.decls...) {
			already[imp.path] = true
		}
	}
	got := map[string]int{}
	names := map[string]string{}
	for _, spec := range file.Imports {
		p, _ := strconv.Unquote(spec.Path.Value)
		got[p]++
		if spec.Name != nil {
			names[p] = spec.Name.Name
		}
	}
	want := t.expected()
	for p := range want {
		g.Notef("%s", p)
		g.Assert("what is needed is imported, once", got[p] == 1)
		g.Assert("imports are for their effect only", already[p] || names[p] == "_")
	}
	if !failed {
		for p := range got {
			g.Notef("%s", p)
			g.Assert("what is not needed is not imported", want[p] == 1)
		}
	}
	if t.exists {
		for _, imp := range slices.Concat(t.decls...) {
			if want[imp.path] == 1 {
				g.Notef("%+v", imp)
				g.Assert("imports keep their names", names[imp.path] == imp.name)
				g.Assert("imports keep the comments above them", strings.Contains(after, imp.above))
			}
		}
		g.Assert("the package keeps its name", file.Name.Name == t.pkg)
		g.Assert("code is kept", strings.Contains(after, strings.TrimSpace(t.code)))
		g.Assert("the header is kept", strings.Contains(after, strings.TrimSpace(t.header)))
	} else {
		g.Assert("new files are for tools only", strings.Contains(after, "//go:build tools\n"))
	}
	constraint := false
	generate := 0
	for _, group := range file.Comments {
		for _, c := range group.List {
			constraint = constraint || c.Text == "//go:build tools" && c.Pos() < file.Package
			if c.Text == "//go:generate go run github.com/DataDog/orchestrion pin" || strings.HasPrefix(c.Text, "//go:generate go run github.com/DataDog/orchestrion pin ") {
				generate++
				flags := strings.Fields(c.Text)[5:]
				g.Assert("the directive pins as it is done now", slices.Contains(flags, "-generate") && slices.Contains(flags, "-prune=false") == t.opts.NoPrune && slices.Contains(flags, "-validate") == t.opts.Validate)
			}
		}
	}
	g.Assert("the build constraint is in effect", constraint)
	if t.opts.NoGenerate {
		g.Assert("no directive is wanted", generate == 0)
	} else {
		g.Assert("there is a directive", generate == 1)
	}
	g.Assert("directives of others are kept", !t.exists || !strings.HasSuffix(t.generate, "pinned") || strings.Contains(after, t.generate))

	// The go.mod file
	if failed {
		return
	}
	var edits []string
	for _, line := range log {
		if strings.HasPrefix(line, "mod edit") && !strings.Contains(line, "-json") {
			edits = append(edits, line)
		}
	}
	required := slices.ContainsFunc(edits, func(e string) bool { return strings.Contains(e, "-require="+orchestrionImportPath+"@") })
	g.Assert("orchestrion is required", required == (t.requires != "v99.0.0"))
	toolchain := "-toolchain=none"
	if t.toolchain != "" {
		toolchain = "-toolchain=" + t.toolchain
	}
	g.Assert("the toolchain is kept", len(edits) > 0 && strings.HasSuffix(edits[len(edits)-1], toolchain))

	// Again
	_, _, err = t.pin(dir)
	again, _ := os.ReadFile(toolFile)
	g.Notef("at first\n%s\nthen (%v)\n%s", after, err, again)
	same := func(text string) string {
		return strings.Join(strings.Fields(strings.ReplaceAll(text, "// integration", "")), " ")
	}
	g.Assert("pinning again changes nothing but remarks", err == nil && same(string(again)) == same(after))
}
