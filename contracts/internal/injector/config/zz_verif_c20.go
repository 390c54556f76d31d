package config

import (
	"context"
	"fmt"
	"io/fs"
	"maps"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/injector/aspect"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"golang.org/x/tools/go/packages"
)

// doc20 is a configuration file.
type doc20 struct {
	extends []string // relative to the directory of the file
	own     []string
	broken  bool
}

// pkg20 is a Go package, in a directory that has the same name.
type pkg20 struct {
	tool    bool
	imports []string
	ignored bool // all its files are excluded by build constraints
}

// world20 is a module.
type world20 struct {
	pkgs     map[string]*pkg20 // keyed by directory, "." is where the configuration is loaded from
	docs     map[string]*doc20 // keyed by file
	offline  bool              // no package can be listed, but for the first one
	validate bool
}

func (w world20) ZZShow() string {
	var sb strings.Builder
	for _, dir := range sortedKeys20(w.pkgs) {
		p := w.pkgs[dir]
		fmt.Fprintf(&sb, "package %s (tool file: %v) imports %q\n", dir, p.tool, p.imports)
	}
	for _, name := range sortedKeys20(w.docs) {
		d := w.docs[name]
		fmt.Fprintf(&sb, "%s extends %q and has aspects %q (broken: %v)\n", name, d.extends, d.own, d.broken)
	}
	fmt.Fprintf(&sb, "offline: %v, validate: %v", w.offline, w.validate)
	return sb.String()
}

func sortedKeys20[T any](m map[string]T) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	slices.Sort(res)
	return res
}

func gen_world20(r *g.Rand) world20 {
	w := world20{pkgs: map[string]*pkg20{}, docs: map[string]*doc20{}, validate: r.Intn(4) == 0}
	dirs := []string{".", "a", "b", "a/c", "d"}[:1+r.Intn(5)]
	var files []string
	for _, dir := range dirs {
		for _, name := range []string{FilenameOrchestrionYML, "other.yml", "x.yml"} {
			if r.Intn(3) != 0 {
				files = append(files, path.Join(dir, name))
			}
		}
	}
	acyclic := r.Intn(2) == 0
	for i, dir := range dirs {
		p := &pkg20{tool: r.Intn(4) != 0, ignored: r.Intn(3) == 0}
		for range r.Intn(4) {
			j := r.Intn(len(dirs))
			if acyclic && j <= i {
				continue
			}
			if r.Intn(5) == 0 {
				p.imports = append(p.imports, builtIn.pkgPath)
				continue
			}
			if imp := path.Join("zz.test/m", dirs[j]); !slices.Contains(p.imports, imp) {
				p.imports = append(p.imports, imp)
			}
		}
		if r.Intn(30) == 0 {
			p.imports = append(p.imports, "zz.test/missing")
		}
		w.pkgs[dir] = p
	}
	n := 0
	for i, file := range files {
		d := &doc20{broken: r.Intn(30) == 0}
		for range r.Intn(3) {
			n++
			d.own = append(d.own, fmt.Sprintf("id%d", n))
		}
		for range r.Intn(3) {
			target := dirs[r.Intn(len(dirs))]
			if r.Intn(3) != 0 {
				j := r.Intn(len(files))
				if acyclic && j <= i {
					continue
				}
				target = files[j]
			} else if acyclic && target <= path.Dir(file) {
				continue
			}
			if r.Intn(20) == 0 {
				target = "nowhere.yml"
			}
			rel, err := filepath.Rel(path.Dir(file), target)
			if err != nil {
				panic(err)
			}
			if w.validate || r.Intn(3) == 0 {
				rel = "./" + rel // the schema asks for it
			}
			d.extends = append(d.extends, rel)
		}
		if len(d.own)+len(d.extends) == 0 { // it would not be valid
			n++
			d.own = []string{fmt.Sprintf("id%d", n)}
		}
		w.docs[file] = d
	}
	w.offline = r.Intn(20) == 0
	return w
}

var root20 = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "world20")
	if err != nil {
		panic(err)
	}
	return dir
})

// write makes the files of the module, and tells where it is.
func (w world20) write() string {
	root, err := os.MkdirTemp(root20(), "m")
	if err != nil {
		panic(err)
	}
	write := func(name, text string) {
		name = filepath.Join(root, name)
		_ = os.MkdirAll(filepath.Dir(name), 0o755)
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	for dir, p := range w.pkgs {
		write(path.Join(dir, "doc.go"), "package p\n")
		if p.tool {
			text := "//go:build tools\n\npackage tools\n\n"
			for _, imp := range p.imports {
				text += fmt.Sprintf("import _ %q\n", imp)
			}
			write(path.Join(dir, FilenameOrchestrionToolGo), text)
		}
	}
	for name, d := range w.docs {
		text := "meta:\n  name: name\n  description: text\n"
		if d.broken {
			text += "aspects: [\n"
		} else {
			for i, id := range d.own {
				if i == 0 {
					text += "aspects:\n"
				}
				text += fmt.Sprintf("  - id: %s\n    join-point: {package-name: main}\n    advice: [add-blank-import: unsafe]\n", id)
			}
			for i, ext := range d.extends {
				if i == 0 {
					text += "extends:\n"
				}
				text += fmt.Sprintf("  - %s\n", ext)
			}
		}
		write(name, text)
	}
	return root
}

// loader lists packages as the Go toolchain does: without any pattern, it is the one in the current directory.
func (w world20) loader(root string) PackageLoader {
	calls := 0
	return func(_ context.Context, dir string, patterns ...string) ([]*packages.Package, error) {
		calls++
		if w.offline && calls > 1 {
			return nil, fmt.Errorf("couldn't run 'go': %w", fs.ErrNotExist)
		}
		if len(patterns) == 0 {
			patterns = []string{dir}
		}
		var res []*packages.Package
		for _, pat := range patterns {
			if pat == builtIn.pkgPath {
				res = append(res, &packages.Package{ID: pat, PkgPath: pat, GoFiles: []string{"/nowhere/doc.go"}})
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(pat, "zz.test/m"), "/")
			if filepath.IsAbs(pat) {
				rel, _ = filepath.Rel(root, pat)
			}
			rel = path.Clean(rel)
			p := w.pkgs[rel]
			if p == nil {
				res = append(res, &packages.Package{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "no required module provides package " + pat}}})
				continue
			}
			pkg := &packages.Package{ID: path.Join("zz.test/m", rel), PkgPath: path.Join("zz.test/m", rel)}
			if p.ignored {
				pkg.IgnoredFiles = []string{filepath.Join(root, rel, "doc.go")}
			} else {
				pkg.GoFiles = []string{filepath.Join(root, rel, "doc.go")}
			}
			res = append(res, pkg)
		}
		return res, nil
	}
}

// reach20 is what the configuration consists of.
type reach20 struct {
	w      world20
	pkgs   map[string]bool
	docs   map[string]bool
	direct map[string]bool // documents which are not only there because of their package
	needs  map[string][]string
	bad    bool
	built  bool
	pkgReq map[string][]string
}

func (c *reach20) pkg(dir string) {
	if c.pkgs[dir] {
		return
	}
	c.pkgs[dir] = true
	p := c.w.pkgs[dir]
	if p == nil {
		c.bad = true
		return
	}
	var before []string
	if p.tool {
		for _, imp := range p.imports {
			if imp == builtIn.pkgPath {
				c.built = true
				c.bad = c.bad || c.w.offline
				continue
			}
			c.bad = c.bad || c.w.offline
			target := path.Clean(strings.TrimPrefix(strings.TrimPrefix(imp, "zz.test/m"), "/"))
			c.pkg(target)
			before = append(before, path.Join(target, FilenameOrchestrionYML))
		}
	}
	file := path.Join(dir, FilenameOrchestrionYML)
	c.needs[file] = append(c.needs[file], before...)
	if c.w.docs[file] != nil {
		c.doc(file)
	} else {
		c.docs[file] = true // as far as the order goes, it is a file without anything
	}
}

func (c *reach20) doc(file string) {
	if c.docs[file] {
		return
	}
	c.docs[file] = true
	d := c.w.docs[file]
	if d == nil || d.broken {
		c.bad = true
		return
	}
	for _, ext := range d.extends {
		target := path.Join(path.Dir(file), ext)
		if c.w.pkgs[target] != nil {
			c.bad = c.bad || c.w.offline
			c.pkg(target)
			target = path.Join(target, FilenameOrchestrionYML)
		} else {
			if c.w.docs[target] == nil {
				c.bad = true
				continue
			}
			c.direct[target] = true
			c.doc(target)
		}
		c.needs[file] = append(c.needs[file], target)
	}
}

// closure20 is what a document needs, and what these documents need.
func (c *reach20) closure20(file string, seen map[string]bool) {
	for _, dep := range c.needs[file] {
		if !seen[dep] {
			seen[dep] = true
			c.closure20(dep, seen)
		}
	}
}

// C20_run_load: the configuration has every aspect once, those of a document
// after those of the documents it builds upon.
func C20_run_load(w world20) {
	root := w.write()
	defer os.RemoveAll(root)
	l := NewLoader(w.loader(root), root, w.validate)
	cfg, err := l.Load(context.Background())

	c := &reach20{w: w, pkgs: map[string]bool{}, docs: map[string]bool{}, direct: map[string]bool{}, needs: map[string][]string{}}
	c.pkg(".")
	g.Notef("error: %v", err)
	if c.bad {
		g.Assert("configuration that cannot be read is an error", err != nil)
		return
	}
	g.Assert("configuration that can be read is no error", err == nil)

	want := map[string]int{}
	if c.built {
		for _, a := range builtIn.yaml.aspects {
			want[a.ID] = 1
		}
	}
	for file := range c.docs {
		if d := w.docs[file]; d != nil {
			for _, id := range d.own {
				want[id] = 1
			}
		}
	}
	count := func(aspects []*aspect.Aspect) map[string]int {
		res := map[string]int{}
		for _, a := range aspects {
			res[a.ID]++
		}
		return res
	}
	aspects := cfg.Aspects()
	g.Notef("aspects: %v", count(aspects))
	g.Assert("every aspect is there, once", maps.Equal(count(aspects), want))
	g.Assert("always the same ones", slices.Equal(aspects, cfg.Aspects()))

	var visited []*aspect.Aspect
	err = Visit(cfg, func(f File, _ string) error {
		visited = append(visited, f.OwnAspects()...)
		return nil
	})
	g.Assert("every file is visited", err == nil && maps.Equal(count(visited), want))

	at := map[string]int{}
	for i, a := range aspects {
		at[a.ID] = i
	}
	for file := range c.docs {
		d := w.docs[file]
		if d == nil {
			continue
		}
		for i := 1; i < len(d.own); i++ {
			g.Assert("aspects of a document are in its order", at[d.own[i-1]] < at[d.own[i]])
		}
		after := map[string]bool{}
		c.closure20(file, after)
		cycle := after[file]
		for dep := range after {
			back := map[string]bool{}
			c.closure20(dep, back)
			cycle = cycle || back[dep]
		}
		for dep := range after {
			if cycle || w.docs[dep] == nil {
				continue // there is no such order
			}
			for _, id := range w.docs[dep].own {
				for _, mine := range d.own {
					g.Notef("%s of %s and %s of %s", id, dep, mine, file)
					g.Assert("what a document builds upon comes first", c.directs(after) || at[id] < at[mine])
				}
			}
		}
	}
}

// directs tells whether configuration of a package is there for another
// reason than that package: then, the order is not that of packages.
func (c *reach20) directs(map[string]bool) bool {
	for file := range c.direct {
		if path.Base(file) == FilenameOrchestrionYML {
			return true
		}
	}
	return false
}
