package aspect

import (
	"bytes"
	"context"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// usable12: the archive may be used by the tests of the target.
func usable12(path string, a pkgs.ResolvedArchive, target string) bool {
	return g.And(g.Or(a.ForTest == "", a.ForTest == target), path != target)
}

// C12_merge: every archive is merged, and nothing else changes.
func C12_merge(pf map[string]string, archives map[string]pkgs.ResolvedArchive, target, k string) {
	g.Assume(pf != nil)
	reg := &importcfg.ImportConfig{PackageFile: pf}
	as := g.SnapMap(archives)
	had, before := g.Has(pf, k), pf[k]
	asked, a := g.Has(as, k), as[k]
	keep := g.Or(!asked, g.And(had, g.Or(a.ForTest == "", before == a.ExportFile)))
	g.NoPanic()
	g.Inv(func(changed map[string]string) bool {
		seen := g.Visited(k)
		return g.And(
			g.Implies(seen, g.And(asked, usable12(k, a, target))),
			g.If(g.And(seen, !keep), g.And(g.Has(reg.PackageFile, k), reg.PackageFile[k] == a.ExportFile), g.And(g.Has(reg.PackageFile, k) == had, reg.PackageFile[k] == before)),
			g.Has(changed, k) == g.And(seen, !keep),
			g.Implies(g.Has(changed, k), changed[k] == a.ExportFile),
		)
	})
	changed, err := mergeResolvedArchives(reg, as, target)
	g.Assert("usable archives only", g.Implies(g.And(err == nil, asked), usable12(k, a, target)))
	g.Assert("kept as it was", g.Implies(keep, g.And(g.Has(reg.PackageFile, k) == had, reg.PackageFile[k] == before)))
	g.Assert("merged", g.Implies(g.And(err == nil, !keep), g.And(g.Has(reg.PackageFile, k), reg.PackageFile[k] == a.ExportFile)))
	g.Assert("changes are reported", g.Implies(err == nil, g.And(g.Has(changed, k) == !keep, g.Implies(!keep, changed[k] == a.ExportFile))))
	g.Assert("the target stays", g.Implies(g.And(err == nil, k == target), g.And(g.Has(reg.PackageFile, k) == had, reg.PackageFile[k] == before)))
	g.Assert("refused with a reason", g.Implies(err != nil, g.SomeKey(as, func(x string) bool { return !usable12(x, as[x], target) })))
	g.Cover("merge")
}

// C12_reject: a synthetic import of a package rebuilt for the test is refused.
func C12_reject(parent, dep, target string, kind linkdeps.DependencyKind, a pkgs.ResolvedArchive) {
	g.NoPanic()
	bad := parent != "" && kind == linkdeps.ImportDependency && target != "" && a.ForTest == target
	g.Assert("refused exactly then", (rejectSyntheticVariantDependency(parent, dep, target, kind == linkdeps.ImportDependency, a) != nil) == bad)
	g.Assert("the target itself", (rejectSatisfiedSyntheticDependency(parent, dep, target, kind, a) != nil) == (bad && dep == target))
	g.Cover("reject")
}

// C12_strongest: of two records of a dependency, the stronger one is kept.
func C12_strongest(a, b pendingLinkDep) {
	g.NoPanic()
	r := strongestPendingLinkDep(a, b)
	g.Assert("one of them", r == a || r == b)
	g.Assert("at least as strong as both", r.kind >= a.kind && r.kind >= b.kind)
	g.Assert("attributed when possible", g.Implies(a.kind == b.kind && (a.parent != "" || b.parent != ""), r.parent != ""))
	g.Cover("strongest")
}

// ---------------------------------------------------------------- bounded part

// graph12 is a set of packages with their dependencies.
type graph12 struct {
	pkgs   []pkg12
	main   []int // packages in the import configuration of main
	target int   // the package under test, or -1
	bad    bool  // some answer has an archive for other tests
}

type pkg12 struct {
	imports []int // later packages only: no cycles
	links   []dep12
	variant bool // rebuilt for the tests of the target
}

type dep12 struct {
	to   int
	kind linkdeps.DependencyKind
}

func path12(n int) string { return fmt.Sprintf("p.com/p%d", n) }

func gen_graph12(r *g.Rand) graph12 {
	gr := graph12{target: -1, bad: r.Intn(6) == 0}
	n := 2 + r.Intn(6)
	for i := 0; i < n; i++ {
		p := pkg12{variant: r.Intn(3) == 0}
		for j := i + 1; j < n; j++ {
			if r.Intn(4) == 0 {
				p.imports = append(p.imports, j)
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			p.links = append(p.links, dep12{r.Intn(n), linkdeps.DependencyKind(r.Intn(2))})
		}
		gr.pkgs = append(gr.pkgs, p)
		if r.Intn(3) == 0 {
			gr.main = append(gr.main, i)
		}
	}
	if r.Intn(2) == 0 {
		gr.target = r.Intn(n)
		gr.main = append(gr.main, gr.target)
	}
	return gr
}

// closure are the packages imported by some packages, and these.
func (gr graph12) closure(from ...int) []int {
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if !seen[i] {
			seen[i] = true
			for _, j := range gr.pkgs[i].imports {
				visit(j)
			}
		}
	}
	for _, i := range from {
		visit(i)
	}
	return slices.Sorted(maps.Keys(seen))
}

type build12 struct {
	*world
	gr       graph12
	provided map[string]string
	answers  map[string]pkgs.ResolvedArchive // all archives that were answered, last wins
	bad      bool
}

func (gr graph12) archive(w *world, i int, suffix string) string {
	f := filepath.Join(w.dir, fmt.Sprintf("p%d%s.a", i, suffix))
	if _, err := os.Stat(f); err == nil {
		return f
	}
	var l linkdeps.LinkDeps
	for _, d := range gr.pkgs[i].links {
		if d.to != i {
			l.Add(path12(d.to), d.kind)
		}
	}
	var t bytes.Buffer
	if err := l.Write(&t); err != nil {
		panic(err)
	}
	text := fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", "__.PKGDEF", 0, 0, 0, 0o644, 2, "x\n")
	if len(gr.pkgs[i].links) > 0 {
		b := t.String()
		if len(b)%2 == 1 {
			b += "\n"
		}
		text += fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", linkdeps.Filename, 0, 0, 0, 0o644, t.Len(), b)
	}
	return w.write(filepath.Base(f), text)
}

// start sets the build of the main package up; everything it imports is
// provided, and in a test everything that is rebuilt is.
func (gr graph12) start(link bool) *build12 {
	b := &build12{world: newWorld(), gr: gr, provided: map[string]string{}, answers: map[string]pkgs.ResolvedArchive{}}
	given := gr.main
	if link {
		given = gr.closure(gr.main...)
	}
	for _, i := range given {
		b.provided[path12(i)] = gr.archive(b.world, i, g.If(gr.target >= 0 && gr.pkgs[i].variant, "-test", ""))
	}
	b.resolve = func(req pkgs.ResolveRequest) (pkgs.ResolveResponse, error) {
		var n int
		if _, err := fmt.Sscanf(req.Pattern, "p.com/p%d", &n); err != nil || path12(n) != req.Pattern {
			return nil, err
		}
		out := pkgs.ResolveResponse{}
		for _, i := range gr.closure(n) {
			if req.TestVariantFor != "" && i == gr.target && n != gr.target {
				continue // authoritative
			}
			a := pkgs.ResolvedArchive{ExportFile: gr.archive(b.world, i, "")}
			if req.TestVariantFor != "" && gr.pkgs[i].variant {
				a = pkgs.ResolvedArchive{ExportFile: gr.archive(b.world, i, "-test"), ForTest: req.TestVariantFor}
				if gr.bad && n != gr.target {
					a.ForTest += "x"
					b.bad = true
				}
			}
			out[path12(i)] = a
			b.answers[path12(i)] = a
		}
		return out, nil
	}
	return b
}

// recorded are the dependencies recorded in the archives of a configuration.
func recorded(cfg map[string]string) map[string]linkdeps.DependencyKind {
	out := map[string]linkdeps.DependencyKind{}
	for _, f := range cfg {
		l, err := linkdeps.FromArchive(context.Background(), f)
		if err != nil {
			panic(err)
		}
		for _, d := range l.Dependencies() {
			out[d] = max(out[d], l.Kind(d))
		}
	}
	return out
}

// complete checks the import configuration a build ends up with.
func (b *build12) complete(cfg map[string]string) {
	g.Notef("given %v\nused %v\nasked for %v", b.provided, cfg, b.asked)
	for d := range recorded(cfg) {
		_, found := cfg[d]
		g.Notef("missing %s; given %v\nused %v\nasked for %v", d, b.provided, cfg, b.asked)
		g.Assert("every recorded dependency is provided", found)
	}
	for p, f := range b.provided {
		if b.gr.target < 0 || p == path12(b.gr.target) {
			g.Assert("entries are kept", cfg[p] == f)
		} else {
			g.Assert("entries are kept, or replaced by those rebuilt for the test", cfg[p] == f || cfg[p] == b.answers[p].ExportFile && b.answers[p].ForTest == path12(b.gr.target))
		}
	}
	for p, f := range cfg {
		_, given := b.provided[p]
		g.Assert("nothing is made up", given || b.answers[p].ExportFile == f)
	}
}

// conflict tells whether some synthetic import may be of a package that is
// rebuilt for the test, which is refused.
func (gr graph12) conflict() bool {
	if gr.target < 0 {
		return false
	}
	for _, p := range gr.pkgs {
		for _, d := range p.links {
			if d.kind == linkdeps.ImportDependency && gr.pkgs[d.to].variant {
				return true
			}
		}
	}
	return false
}

// refused: an archive in use was compiled without an import of a package that
// is rebuilt for the test, which is added to the program.
func (b *build12) refused(provided map[string]linkdeps.DependencyKind) bool {
	for p, k := range provided {
		var n int
		fmt.Sscanf(p, "p.com/p%d", &n)
		if b.gr.target >= 0 && k == linkdeps.ImportDependency && b.gr.pkgs[n].variant {
			return true
		}
	}
	return false
}

// C12_run_main: compiling the main package provides and imports everything its
// dependencies record.
func C12_run_main(gr graph12) {
	b := gr.start(false)
	defer b.close()
	path, file := "main.com/app", "main.go"
	if gr.target >= 0 {
		path, file = path12(gr.target)+".test", "_testmain.go"
	}
	src := b.write("src/"+file, "package main\nfunc main() {}\n")
	args := b.compileCommand("main", "go1.22", b.provided, src)
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, path, slices.Clone(args))
	if err != nil {
		panic(err)
	}
	c := cmd.(*proxy.CompileCommand)
	first := recorded(b.provided)
	maps.DeleteFunc(first, func(p string, _ linkdeps.DependencyKind) bool { _, ok := b.provided[p]; return ok })
	err = proxy.ProcessCommand(ctx, cmd, Weaver{ImportPath: path}.OnCompileMain)
	if err != nil {
		g.Notef("%v", err)
		g.Assert("refused only with a reason", b.bad || gr.conflict())
		return
	}
	g.Assert("archives for other tests are refused", !b.bad)
	g.Assert("imports of what is rebuilt for the test are refused", !b.refused(first))
	cfg := packageFiles(c.Flags.ImportCfg)
	b.complete(cfg)
	if len(first) == 0 {
		g.Assert("nothing to do", slices.Equal(args, c.Args()) && maps.Equal(cfg, b.provided))
		return
	}
	after := c.Args()
	g.Notef("%q", after)
	g.Assert("one file is added", len(after) == len(args)+1 && slices.Equal(after[:len(args)], args))
	text := read(after[len(args)])
	g.Notef("%s\ndependencies %v", text, first)
	for p := range first {
		g.Assert("the program imports it", strings.Contains(text, "_ \""+p+"\""))
		g.Assert("it stays recorded", c.LinkDeps.Contains(p) && c.LinkDeps.Kind(p) >= first[p])
	}
	for _, l := range strings.Split(text, "\n") {
		if _, q, ok := strings.Cut(l, "_ \""); ok {
			_, found := cfg[strings.TrimSuffix(q, "\"")]
			g.Assert("what is imported is provided", found)
		}
	}
	// everything in use is imported, directly or not
	var named []int
	for i := range gr.pkgs {
		_, given := b.provided[path12(i)]
		if given || strings.Contains(text, "\""+path12(i)+"\"") {
			named = append(named, i)
		}
	}
	reached := gr.closure(named...)
	for d := range recorded(cfg) {
		var n int
		fmt.Sscanf(d, "p.com/p%d", &n)
		g.Notef("%s\n%s is not imported", text, d)
		g.Assert("everything recorded is part of the program", slices.Contains(reached, n))
	}
	g.Cover("main")
}

// C12_run_link: linking provides everything the packages record.
func C12_run_link(gr graph12) {
	b := gr.start(true)
	defer b.close()
	path, mode := "main.com/app", "app"
	if gr.target >= 0 {
		path, mode = path12(gr.target)+".test", "p.test"
	}
	cfgText := "# import config\n"
	for _, p := range slices.Sorted(maps.Keys(b.provided)) {
		cfgText += "packagefile " + p + "=" + b.provided[p] + "\n"
	}
	cfgFile := b.write("work/b001/importcfg.link", cfgText)
	main := b.write("work/b001/_pkg_.a", fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", "__.PKGDEF", 0, 0, 0, 0o644, 2, "x\n"))
	if gr.target >= 0 {
		main = b.testMain(path)
	}
	args := []string{"/go/link", "-o", filepath.Join(b.dir, "work/b001/exe", mode), "-importcfg", cfgFile, "-buildmode=exe", main}
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, path, slices.Clone(args))
	if err != nil {
		panic(err)
	}
	err = proxy.ProcessCommand(ctx, cmd, Weaver{ImportPath: path}.OnLink)
	if err != nil {
		g.Notef("%v", err)
		g.Assert("refused only with a reason", b.bad || gr.conflict())
		return
	}
	g.Assert("archives for other tests are refused", !b.bad)
	g.Assert("imports of what is rebuilt for the test are refused", !b.refused(recorded(b.provided)))
	cfg := packageFiles(cfgFile)
	b.complete(cfg)
	g.Assert("the command is left alone", slices.Equal(args, cmd.Args()))
	g.Cover("link")
}

// testMain is the archive of the main package of a test, as the compilation
// leaves it.
func (b *build12) testMain(path string) string {
	src := b.write("src/_testmain.go", "package main\nfunc main() {}\n")
	args := b.compileCommand("main", "go1.22", nil, src)
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, path, args)
	if err != nil {
		panic(err)
	}
	c := cmd.(*proxy.CompileCommand)
	if err := proxy.ProcessCommand(ctx, cmd, Weaver{ImportPath: path}.OnCompileMain); err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.Flags.Output, []byte(fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8o%-10d`\n%s", "__.PKGDEF", 0, 0, 0, 0o644, 2, "x\n")), 0o644); err != nil {
		panic(err)
	}
	if err := cmd.Close(ctx, nil); err != nil {
		panic(err)
	}
	return c.Flags.Output
}

// uses12 is woven code that uses packages.
type uses12 struct {
	gr      graph12
	imports []int // imported by woven code
	blank   []int // imported for their effects
	links   []int // linked to
	main    bool
}

func gen_uses12(r *g.Rand) uses12 {
	u := uses12{gr: gen_graph12(r), main: r.Intn(3) == 0}
	u.gr.target, u.gr.bad = -1, false
	some := func() (out []int) {
		for k := r.Intn(3); k > 0; k-- {
			out = append(out, r.Intn(len(u.gr.pkgs)))
		}
		return out
	}
	u.imports, u.blank, u.links = some(), some(), some()
	return u
}

// C12_run_woven: what woven code uses is recorded, and what it imports is
// provided to the compiler.
func C12_run_woven(u uses12) {
	b := u.gr.start(false)
	defer b.close()
	yml := "meta:\n  name: x\n  description: y\naspects:\n  - id: a\n    join-point:\n      function:\n        - name: f\n    advice:\n"
	yml += "      - inject-declarations:\n          template: 'var _ = 1"
	for k, i := range u.imports {
		yml += fmt.Sprintf("; var _ = i%d.X%d", i, k)
	}
	yml += "'\n"
	if len(u.imports) > 0 {
		yml += "          imports:\n"
		for _, i := range slices.Compact(slices.Sorted(slices.Values(u.imports))) {
			yml += fmt.Sprintf("            i%d: %s\n", i, path12(i))
		}
	}
	if len(u.links) > 0 {
		yml += "          links:\n"
		for _, i := range u.links {
			yml += "            - " + path12(i) + "\n"
		}
	}
	for _, i := range u.blank {
		yml += "      - add-blank-import: " + path12(i) + "\n"
	}
	b.configure(yml)
	path := g.If(u.main, "main.com/app", "lib.com/lib")
	src := b.write("src/f.go", "package "+g.If(u.main, "main", "lib")+"\nfunc f() {}\n")
	args := b.compileCommand(g.If(u.main, "main", path), "go1.22", b.provided, src)
	c, err := b.weave(path, args)
	g.Notef("%v\n%s", err, yml)
	g.Assert("weaving succeeds", err == nil)
	cfg := packageFiles(c.Flags.ImportCfg)
	for p, f := range b.provided {
		g.Assert("entries are kept", cfg[p] == f)
	}
	for p, f := range cfg {
		_, given := b.provided[p]
		g.Assert("nothing is made up", given || b.answers[p].ExportFile == f)
	}
	note := func(p string) {
		g.Notef("%s\n%s: given %v\nused %v\nrecorded %v (%v)", yml, p, b.provided, cfg, c.LinkDeps.Dependencies(), c.LinkDeps.Kind(p))
	}
	record := func(p string, k linkdeps.DependencyKind) {
		note(p)
		_, given := b.provided[p]
		if given {
			return
		}
		// recorded itself, or imported by something that is
		ok := c.LinkDeps.Contains(p) && c.LinkDeps.Kind(p) >= k
		if u.main && cfg[p] != "" { // nothing depends on a main package
			return
		}
		for _, i := range append(slices.Clone(u.imports), u.blank...) {
			if q := path12(i); !ok && c.LinkDeps.Contains(q) && c.LinkDeps.Kind(q) == linkdeps.ImportDependency {
				for _, j := range u.gr.closure(i) {
					ok = ok || path12(j) == p
				}
			}
		}
		g.Assert("what is used is recorded", ok)
	}
	known := map[string]bool{}
	for _, i := range append(slices.Clone(u.imports), u.blank...) {
		record(path12(i), linkdeps.ImportDependency)
		known[path12(i)] = true
		if _, given := b.provided[path12(i)]; given {
			continue
		}
		for _, j := range u.gr.closure(i) {
			note(path12(j))
			g.Assert("what is imported is provided", cfg[path12(j)] != "")
			for _, d := range u.gr.pkgs[j].links {
				known[path12(d.to)] = true
				if _, found := cfg[path12(d.to)]; !found && d.to != j {
					record(path12(d.to), d.kind)
				}
			}
		}
	}
	for _, i := range u.links {
		record(path12(i), linkdeps.RelocationDependency)
		known[path12(i)] = true
		if u.main {
			for _, j := range u.gr.closure(i) {
				for _, d := range u.gr.pkgs[j].links {
					known[path12(d.to)] = true
				}
			}
		}
	}
	for p := range recorded(b.provided) {
		known[p] = true
		if _, given := b.provided[p]; !given {
			record(p, recorded(b.provided)[p])
		}
	}
	for _, p := range c.LinkDeps.Dependencies() {
		g.Notef("%s\n%s is recorded", yml, p)
		g.Assert("nothing else is recorded", known[p])
	}
	g.Cover("woven")
}
