package importcfg

import (
	"bytes"
	"context"
	"io"
	"os"
	"path/filepath"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C05_combine: entries are kept, and the missing ones are added.
func C05_combine(have, more map[string]string, k string) {
	r, o := &ImportConfig{PackageFile: have}, &ImportConfig{PackageFile: g.SnapMap(more)}
	had, hv := g.Has(have, k), have[k]
	got, gv := g.Has(more, k), more[k]
	g.NoPanic()
	r.CombinePackageFile(o)
	g.Assert("an entry is never changed", g.Implies(had, g.And(g.Has(r.PackageFile, k), r.PackageFile[k] == hv)))
	g.Assert("a missing entry is added", g.Implies(g.And(got, !had), g.And(g.Has(r.PackageFile, k), r.PackageFile[k] == gv)))
	g.Assert("nothing else is added", g.Implies(g.And(!got, !had), !g.Has(r.PackageFile, k)))
	g.Cover("combine")
}

// C05_reported: the result tells whether something was added.
func C05_reported(have, more map[string]string, k string) {
	before := g.SnapMap(have)
	r, o := &ImportConfig{PackageFile: have}, &ImportConfig{PackageFile: g.SnapMap(more)}
	g.NoPanic()
	changed := r.CombinePackageFile(o)
	g.Assert("unchanged means the same", g.Implies(!changed, g.Has(r.PackageFile, k) == g.Has(before, k)))
	g.Assert("unchanged means nothing was missing", g.Implies(g.And(!changed, g.Has(more, k)), g.Has(before, k)))
	g.Assert("changed means something was missing", g.Implies(changed, g.SomeKey(more, func(k string) bool { return !g.Has(before, k) })))
	g.Cover("reported")
}

// C05_rest: merging concerns package files only.
func C05_rest(have, more, hm, om map[string]string, he, oe []string) {
	r, o := &ImportConfig{PackageFile: have, ImportMap: g.SnapMap(hm), Extras: he}, &ImportConfig{PackageFile: g.SnapMap(more), ImportMap: om, Extras: oe}
	nm, ne := len(hm), len(he)
	g.NoPanic()
	r.CombinePackageFile(o)
	g.Assert("extras", g.And(g.SameSlice(r.Extras, he), len(r.Extras) == ne, g.SameSlice(o.Extras, oe)))
	g.Assert("import map", len(r.ImportMap) == nm)
	g.Cover("rest")
}

var opened05 string

// contract of os.Open for the symbolic check below.
func C05_sym_open(name string) {
	g.Contract(os.Open)
	_, _ = os.Open(name)
	opened05 = name
}

// C05_sym_lookup: the mapping comes first, then the package file.
func C05_sym_lookup(pf, im map[string]string, path string) {
	r := &ImportConfig{PackageFile: pf, ImportMap: im}
	opened05 = ""
	want := path
	if g.Has(im, path) {
		want = im[path]
	}
	g.NoPanic()
	rc, err := r.Lookup(path)
	_ = rc
	g.Assert("opens the mapped package file", g.Implies(pf[want] != "", opened05 == pf[want]))
	g.Assert("unknown packages are an error", g.Implies(pf[want] == "", g.And(err != nil, opened05 == "")))
	g.Cover("lookup")
}

// ---------------------------------------------------------------- bounded part

type line05 string

func gen_line05(r *g.Rand) line05 {
	p := g.Pick(r, "a", "b", "a/b", "vendor/x", "é", "x y", "a.b/c", "")
	v := g.Pick(r, "/w/b001/_pkg_.a", "/w/a=b.a", "C:/x y/z.a", "", "v")
	switch r.Intn(9) {
	case 0, 1, 2:
		return line05("packagefile " + p + "=" + v)
	case 3, 4:
		return line05("importmap " + p + "=" + v)
	case 5:
		return line05("modinfo \"0w\\xaf" + p + "\"")
	case 6:
		return line05(g.Pick(r, "# a comment", "", "   ", "#packagefile a=b"))
	case 7:
		return line05(g.Pick(r, "packagefile nothing", "importmap x", "packagefile", "importmap", "packageshlib a=b", "other"))
	}
	return line05(g.Pick(r, "  packagefile  a=b", "\tpackagefile a=b", "packagefile\ta=b", "packagefile a=b  ", "PackageFile a=b"))
}

type cfg05 struct {
	pf, im map[string]string
	ex     []string
}

// ref05 reads the lines by the documented format, independently.
func ref05(lines []line05) cfg05 {
	c := cfg05{map[string]string{}, map[string]string{}, nil}
	for _, l := range lines {
		s := strings.Trim(string(l), " \t\r\n\v\f")
		if s == "" || strings.HasPrefix(s, "#") {
			continue
		}
		var m map[string]string
		rest := ""
		if strings.HasPrefix(s, "packagefile ") {
			m, rest = c.pf, s[len("packagefile "):]
		} else if strings.HasPrefix(s, "importmap ") {
			m, rest = c.im, s[len("importmap "):]
		}
		i := strings.IndexByte(rest, '=')
		if m == nil || i < 0 {
			c.ex = append(c.ex, s)
			continue
		}
		m[rest[:i]] = rest[i+1:]
	}
	return c
}

func same05(r *ImportConfig, c cfg05) bool {
	if len(r.PackageFile) != len(c.pf) || len(r.ImportMap) != len(c.im) || len(r.Extras) != len(c.ex) {
		return false
	}
	for k, v := range c.pf {
		if w, ok := r.PackageFile[k]; !ok || v != w {
			return false
		}
	}
	for k, v := range c.im {
		if w, ok := r.ImportMap[k]; !ok || v != w {
			return false
		}
	}
	for i := range c.ex {
		if r.Extras[i] != c.ex[i] {
			return false
		}
	}
	return true
}

// C05_run_roundtrip: what is read is what the lines say, and survives writing.
func C05_run_roundtrip(lines []line05, crlf bool, unterminated bool) {
	var b bytes.Buffer
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	for i, l := range lines {
		b.WriteString(string(l))
		if i < len(lines)-1 || !unterminated {
			b.WriteString(nl)
		}
	}
	want := ref05(lines)
	text := b.String()
	r, err := parse(&b)
	g.Notef("lines %q: %+v, %v", text, r, err)
	g.Assert("readable", err == nil)
	g.Assert("every line", same05(&r, want))
	// entries whose text has outer blanks cannot be told apart from padding
	for k, v := range want.pf {
		if strings.TrimSpace(v) != v || strings.TrimSpace(k) != k {
			return
		}
	}
	var w bytes.Buffer
	g.Assert("written", r.write(&w) == nil)
	back, err := parse(&w)
	g.Assert("read back", err == nil && same05(&back, want))
}

type broken05 struct {
	r io.Reader
}

func (b broken05) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// C05_run_truncated: a read error is reported, never a silently shorter result.
func C05_run_truncated(lines []line05, long bool) {
	var b bytes.Buffer
	for _, l := range lines {
		b.WriteString(string(l) + "\n")
	}
	if long {
		b.WriteString("packagefile long=" + strings.Repeat("x", 70000) + "\n")
		b.WriteString("packagefile after=y\n")
		r, err := parse(&b)
		g.Assert("read in full or an error", err != nil || (r.PackageFile["after"] == "y" && len(r.PackageFile["long"]) == 70000))
		return
	}
	_, err := parse(broken05{&b})
	g.Assert("the read error is reported", err != nil)
}

// C05_run_files: the same, through files; and merging into what was read.
func C05_run_files(lines, more []line05) {
	dir, err := os.MkdirTemp("", "c05")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "importcfg")
	var t strings.Builder
	for _, l := range lines {
		t.WriteString(string(l) + "\n")
	}
	if err := os.WriteFile(f, []byte(t.String()), 0o644); err != nil {
		panic(err)
	}
	want, other := ref05(lines), ref05(more)
	r, err := ParseFile(context.Background(), f)
	g.Assert("readable", err == nil && same05(&r, want))
	changed := r.CombinePackageFile(&ImportConfig{PackageFile: other.pf})
	missing := false
	for k, v := range other.pf {
		if _, ok := want.pf[k]; !ok {
			want.pf[k] = v
			missing = true
		}
	}
	g.Assert("merged", changed == missing && same05(&r, want))
	g.Assert("written", r.WriteFile(f) == nil)
	for k, v := range want.pf {
		if strings.TrimSpace(v) != v || strings.TrimSpace(k) != k {
			return
		}
	}
	back, err := ParseFile(context.Background(), f)
	g.Assert("read back", err == nil && same05(&back, want))
}

// C05_run_lookup: the archive of the mapped package is what is opened.
func C05_run_lookup(mapped, known, both bool) {
	dir, err := os.MkdirTemp("", "c05")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	pf := map[string]string{}
	put := func(p string) {
		f := filepath.Join(dir, strings.ReplaceAll(p, "/", "_"))
		_ = os.WriteFile(f, []byte("archive of "+p), 0o644)
		pf[p] = f
	}
	im := map[string]string{}
	want := "a"
	if mapped {
		im["a"], want = "vendor/a", "vendor/a"
	}
	if known {
		put(want)
	}
	if both {
		put("other")
		if mapped {
			put("a")
		}
	}
	r := &ImportConfig{PackageFile: pf, ImportMap: im}
	rc, err := r.Lookup("a")
	if !known {
		g.Assert("unknown packages are an error", err != nil)
		return
	}
	g.Assert("found", err == nil)
	defer rc.Close()
	got, _ := io.ReadAll(rc)
	g.Assert("the archive", string(got) == "archive of "+want)
}
