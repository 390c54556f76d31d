package linkdeps

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/blakesmith/ar"
)

func stronger(a, b DependencyKind) DependencyKind {
	if a > b {
		return a
	}
	return b
}

// C04_add: one more dependency; everything else is as before.
func C04_add(m map[string]DependencyKind, path string, kind DependencyKind, other string) {
	l := &LinkDeps{deps: m}
	had, old := l.Contains(path), l.Kind(path)
	hadOther, oldOther := l.Contains(other), l.Kind(other)
	n := l.Len()
	g.NoPanic()
	l.Add(path, kind)
	g.Assert("added", l.Contains(path))
	g.Assert("never weaker", g.Implies(had, l.Kind(path) >= old))
	g.Assert("at least as asked", l.Kind(path) >= kind)
	g.Assert("the strongest", l.Kind(path) == g.If(g.And(had, old > kind), old, kind))
	g.Assert("others stay", g.Implies(other != path, l.Contains(other) == hadOther))
	g.Assert("others keep their kind", g.Implies(other != path, l.Kind(other) == oldOther))
	g.Assert("count", l.Len() == n+g.If(had, 0, 1))
	g.Assert("not empty", !l.Empty())
	g.Cover("add")
}

// C04_commute: the order of additions does not matter.
func C04_commute(m map[string]DependencyKind, p, q string, j, k DependencyKind, x string) {
	l := &LinkDeps{deps: g.SnapMap(m)}
	r := &LinkDeps{deps: g.SnapMap(m)}
	g.NoPanic()
	l.Add(p, j)
	l.Add(q, k)
	r.Add(q, k)
	r.Add(p, j)
	g.Assert("same paths", l.Contains(x) == r.Contains(x))
	g.Assert("same kinds", l.Kind(x) == r.Kind(x))
	g.Assert("same count", l.Len() == r.Len())
	g.Cover("commute")
}

// C04_empty: the zero value holds nothing.
func C04_empty(x string, k DependencyKind) {
	var l LinkDeps
	g.NoPanic()
	g.Assert("empty", g.And(l.Empty(), l.Len() == 0, !l.Contains(x)))
	l.Add(x, k)
	g.Assert("one", g.And(!l.Empty(), l.Len() == 1, l.Contains(x), l.Kind(x) == k))
	g.Cover("empty")
}

// C04_dependencies: the list is sorted and has each path once.
func C04_dependencies(m map[string]DependencyKind) {
	l := &LinkDeps{deps: m}
	snap := g.SnapMap(m)
	g.NoPanic()
	ds := l.Dependencies()
	g.Assert("as many", len(ds) == l.Len())
	g.Assert("sorted", g.Forall(1, len(ds), func(i int) bool { return ds[i-1] <= ds[i] }))
	g.Assert("the set is untouched", g.SameMap(m, snap))
	g.Cover("list")
}

// C04_listed: every path is listed.
func C04_listed(m map[string]DependencyKind, x string) {
	l := &LinkDeps{deps: m}
	g.NoPanic()
	ds := l.Dependencies()
	g.Assert("every path", g.Implies(l.Contains(x), g.In(x, ds)))
	g.Assert("only these paths", g.Implies(g.In(x, ds), l.Contains(x)))
	g.Cover("listed")
}

// ---------------------------------------------------------------- bounded part

type dep04 struct {
	path string
	kind DependencyKind
}

func gen_dep04(r *g.Rand) dep04 {
	return dep04{g.Pick(r, "a", "b", "a/b", "x.y/z", "import", "relocation", "a#b", "é/ü", "net/http", "x.y/z/v2", "import/relocation"), DependencyKind(r.Intn(2))}
}

func set04(ds []dep04) (LinkDeps, map[string]DependencyKind) {
	var l LinkDeps
	want := map[string]DependencyKind{}
	for _, d := range ds {
		l.Add(d.path, d.kind)
		if k, ok := want[d.path]; !ok || k < d.kind {
			want[d.path] = d.kind
		}
	}
	return l, want
}

func same04(l *LinkDeps, want map[string]DependencyKind) bool {
	for p, k := range want {
		if !l.Contains(p) || l.Kind(p) != k {
			return false
		}
	}
	return l.Len() == len(want) && len(l.Dependencies()) == len(want) && l.Empty() == (len(want) == 0)
}

// C04_run_roundtrip: what was written is read back.
func C04_run_roundtrip(ds []dep04) {
	l, want := set04(ds)
	g.Assert("the strongest kinds", same04(&l, want))
	var b, b2 bytes.Buffer
	g.Assert("written", l.Write(&b) == nil && l.Write(&b2) == nil)
	g.Assert("written text does not vary", b.String() == b2.String())
	text := b.String()
	back, err := Read(&b)
	g.Notef("written: %q", text)
	g.Assert("readable", err == nil)
	g.Assert("read back", same04(&back, want))
}

// C04_run_readers: reading merges the lines with the strongest kind; version 1
// records are imports; comments and blank lines say nothing; a truncated or
// unknown record is an error and never silently shorter.
func C04_run_readers(ds []dep04, noise int, v1 bool, cut bool) {
	var b strings.Builder
	want := map[string]DependencyKind{}
	if v1 {
		b.WriteString(headerV1 + "\n")
	} else {
		b.WriteString(headerV2 + "\n")
	}
	for i, d := range ds {
		if strings.Contains(d.path, "#") {
			continue
		}
		switch (noise + i) % 5 {
		case 1:
			b.WriteString("# a comment\n")
		case 2:
			b.WriteString("\n")
		case 3:
			b.WriteString("  ")
		}
		k := d.kind
		if v1 {
			k = ImportDependency
			b.WriteString(d.path)
		} else {
			b.WriteString([]string{"relocation", "import"}[d.kind] + "\t" + d.path)
		}
		if !cut || i < len(ds)-1 {
			b.WriteString("\n")
		}
		if old, ok := want[d.path]; !ok || old < k {
			want[d.path] = k
		}
	}
	l, err := Read(strings.NewReader(b.String()))
	g.Notef("read %q: %v", b.String(), err)
	g.Assert("readable", err == nil)
	g.Assert("every record", same04(&l, want))
	if !v1 {
		for _, bad := range []string{"import\n", "import\t\n", "\timport\n", "strong\ta/b\n", "a/b\n"} {
			_, err := Read(strings.NewReader(b.String() + "\n" + bad))
			g.Assert("a broken record is an error: "+bad, err != nil)
		}
	}
	_, err = Read(strings.NewReader("#link.deps@v3\nimport\ta\n"))
	g.Assert("an unknown version is an error", err != nil)
}

// archive04 writes an archive with the given entries.
func archive04(dir string, n int, entries ...string) string {
	p := filepath.Join(dir, fmt.Sprintf("%d.a", n))
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := ar.NewWriter(f)
	_ = w.WriteGlobalHeader()
	for i := 0; i+1 < len(entries); i += 2 {
		_ = w.WriteHeader(&ar.Header{Name: entries[i], Size: int64(len(entries[i+1])), Mode: 0o644})
		_, _ = w.Write([]byte(entries[i+1]))
	}
	return p
}

// C04_run_importcfg: the records of all archives are merged, with the strongest
// kind, except for what the configuration provides.
func C04_run_importcfg(a, b, c []dep04, provided []dep04, skipB bool) {
	dir, err := os.MkdirTemp("", "c04")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cfg := importcfg.ImportConfig{PackageFile: map[string]string{}}
	want := map[string]DependencyKind{}
	for _, p := range provided {
		cfg.PackageFile[p.path] = archive04(dir, len(cfg.PackageFile)+10, "__.PKGDEF", "x")
	}
	for i, ds := range [][]dep04{a, b, c} {
		l, m := set04(ds)
		var t bytes.Buffer
		_ = l.Write(&t)
		entries := []string{"__.PKGDEF", "go object", Filename, t.String(), "_go_.o", "y"}
		if i == 1 && skipB {
			entries = entries[:2]
			m = nil
		}
		cfg.PackageFile[fmt.Sprintf("pkg/%d", i)] = archive04(dir, i, entries...)
		for p, k := range m {
			if old, ok := want[p]; !ok || old < k {
				want[p] = k
			}
		}
	}
	for p := range cfg.PackageFile {
		delete(want, p)
	}
	got, err := FromImportConfig(context.Background(), &cfg)
	g.Assert("readable", err == nil)
	g.Notef("got %v, want %v, provided %v", got.deps, want, cfg.PackageFile)
	g.Assert("every unsatisfied dependency", same04(&got, want))
	cfg.PackageFile["pkg/bad"] = filepath.Join(dir, "missing.a")
	_, err = FromImportConfig(context.Background(), &cfg)
	g.Assert("an unreadable archive is an error", err != nil)
}
