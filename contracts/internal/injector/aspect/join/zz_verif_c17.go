package join

import (
	gocontext "context"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/goenv"
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// seg17: the segment matches the segment pattern.
func seg17(p, x string) bool { ok, _ := path.Match(p, x); return ok }

// bad17: a segment of the pattern is malformed.
func bad17(ps []string) bool {
	return len(ps) > 0 && (ps[0] != "**" && malformed17(ps[0]) || bad17(ps[1:]))
}

func C17_frame_bad(ps []string) { g.Contract(bad17); g.Pure(); bad17(ps) }

// is17 is bad17 with its definition unfolded once, and what C17_sym_bad proves.
func is17(ps, xs []string) bool {
	g.Fact(g.Implies(len(ps) == 0, !bad17(ps)))
	if len(ps) > 0 {
		g.Fact(bad17(ps) == g.Or(g.And(ps[0] != "**", malformed17(ps[0])), bad17(ps[1:])))
	}
	return bad17(ps)
}

// C17_sym_bad: a pattern with a malformed segment matches nothing (the step of
// the induction on its length).
func C17_sym_bad(ps, xs []string) {
	if len(ps) > 0 {
		g.Assume(g.Forall(0, len(xs)+1, func(k int) bool { return g.Implies(bad17(ps[1:]), !fits17(ps[1:], xs[k:])) }))
	}
	g.Assert("malformed matches nothing", g.Implies(is17(ps, xs), !means17(ps, xs)))
	g.Cover("bad")
}

func malformed17(p string) bool { _, err := path.Match(p, ""); return err != nil }

// fits17 is the meaning of a pattern given by segments: "**" stands for any
// number of segments, every other segment for one.
func fits17(ps, xs []string) bool {
	if len(ps) == 0 {
		return len(xs) == 0
	}
	if ps[0] == "**" {
		return g.Exists(0, len(xs)+1, func(k int) bool { return fits17(ps[1:], xs[k:]) })
	}
	return len(xs) > 0 && seg17(ps[0], xs[0]) && fits17(ps[1:], xs[1:])
}

func C17_frame_fits(ps, xs []string) { g.Contract(fits17); g.Pure(); fits17(ps, xs) }

// means17 is fits17, with its definition unfolded once.
func means17(ps, xs []string) bool {
	g.Fact(g.Implies(len(ps) == 0, fits17(ps, xs) == (len(xs) == 0)))
	if len(ps) > 0 {
		g.Fact(g.Implies(ps[0] == "**", fits17(ps, xs) == g.Exists(0, len(xs)+1, func(k int) bool { return fits17(ps[1:], xs[k:]) })))
		g.Fact(g.Implies(g.And(ps[0] != "**", len(xs) == 0), !fits17(ps, xs)))
		if len(xs) > 0 {
			g.Fact(g.Implies(ps[0] != "**", fits17(ps, xs) == g.And(seg17(ps[0], xs[0]), fits17(ps[1:], xs[1:]))))
		}
	}
	return fits17(ps, xs)
}

// C17_sym_segments: the contract of matchSegments.
func C17_sym_segments(ps, xs []string) {
	g.Contract(matchSegments)
	want := fits17(ps, xs)
	g.Fact(g.Implies(bad17(ps), !want)) // C17_sym_bad
	g.Fact(g.Implies(len(ps) == 0, want == (len(xs) == 0)))
	g.Inv(func(patternIdx, pathIdx int) bool { return means17(ps[len(ps):], xs[len(xs):]) })
	g.Inv(func(patternIdx, pathIdx int) bool {
		return g.And(0 <= patternIdx, patternIdx <= len(ps), 0 <= pathIdx, pathIdx <= len(xs)+1)
	})
	g.Inv(func(patternIdx, pathIdx int) bool {
		if 0 <= patternIdx && patternIdx < len(ps) && 0 <= pathIdx && pathIdx <= len(xs) {
			// an instance of the definition
			g.Fact(g.Implies(g.And(ps[patternIdx] == "**", fits17(ps[patternIdx+1:], xs[len(xs):])), fits17(ps[patternIdx:], xs[pathIdx:])))
		}
		return g.Implies(g.And(0 <= patternIdx, patternIdx <= len(ps), 0 <= pathIdx, pathIdx <= len(xs)), means17(ps[patternIdx:], xs[pathIdx:]) == want)
	})
	g.Inv(func(patternIdx, pathIdx int) bool {
		return g.Implies(g.And(0 <= patternIdx, patternIdx <= len(ps)), g.Implies(is17(ps[patternIdx:], xs), bad17(ps)))
	})
	g.Inv(func(patternIdx, from, pathIdx int) bool {
		if 0 <= patternIdx && patternIdx < len(ps) && 0 <= from && from <= pathIdx && pathIdx <= len(xs) {
			// an instance of the definition
			g.Fact(g.Implies(g.And(ps[patternIdx] == "**", fits17(ps[patternIdx+1:], xs[pathIdx:])), fits17(ps[patternIdx:], xs[from:])))
		}
		return g.Implies(g.And(0 <= patternIdx, patternIdx < len(ps), 0 <= from, from <= len(xs)),
			g.And(from <= pathIdx, pathIdx <= len(xs)+1, g.Forall(from, pathIdx, func(k int) bool { return !fits17(ps[patternIdx+1:], xs[k:]) })))
	})
	ok, err := matchSegments(ps, xs)
	g.Assert("matches what it describes", g.Implies(err == nil, ok == want))
	g.Assert("malformed matches nothing", g.Implies(err != nil, g.And(!ok, bad17(ps))))
	g.Cover("segments")
}

// ---------------------------------------------------------------- the filter

// C17_frame_glob: what a pattern means is another matter here.
func C17_frame_glob(pattern, p string) { g.Contract(globMatch); g.Pure(); globMatch(pattern, p) }

// C17_frame_root: the module being built does not change.
func C17_frame_root(ctx gocontext.Context) {
	g.Contract(goenv.RootModulePath)
	g.Pure()
	goenv.RootModulePath(ctx)
}

// C17_sym_filter: which packages the pattern is applied to, and to which part
// of their path.
func C17_sym_filter(root bool, pattern, p string) {
	g.Assume(p != "")
	module, err := goenv.RootModulePath(gocontext.Background())
	g.Assume(g.Implies(err == nil, module != ""))
	inside := g.And(err == nil, g.Or(p == module, strings.HasPrefix(p, module+"/")))
	part := p
	if root && inside {
		part = "."
		if p != module {
			part = p[len(module)+1:]
		}
	}
	ok, err := globMatch(pattern, part)
	means := g.Or(pattern == "*", g.And(pattern != "", ok, err == nil), g.And(pattern == "", root))
	got := PackageFilter(root, pattern).matchesPattern(p)
	g.Assert("outside of the module", g.Implies(g.And(root, !inside), !got))
	g.Assert("by the pattern", g.Implies(g.Or(!root, inside), got == means))
	g.Cover("filter")
}

// C17_sym_same: the cheap check of the package is the real one.
func C17_sym_same(pf packageFilter, ctx context.AspectContext, pc *may.PackageContext) {
	g.Assume(ctx != nil && pc != nil && pc.ImportPath == ctx.ImportPath())
	m := pf.PackageMayMatch(pc)
	g.Assert("agrees", g.And(g.Iff(m == may.Match, pf.Matches(ctx)), g.Iff(m == may.NeverMatch, !pf.Matches(ctx))))
	g.Cover("same")
}

// ---------------------------------------------------------------- bounded part

type seg17t string

func gen_seg17t(r *g.Rand) seg17t {
	return seg17t(g.Pick(r, "a", "b", "ab", "a.b", "internal", "x", "v2", "a-b", "A", "aa"))
}

type pat17 string

// gen_pat17 makes a pattern of one segment.
func gen_pat17(r *g.Rand) pat17 {
	switch r.Intn(10) {
	case 0, 1, 2:
		return "**"
	case 3, 4, 5:
		return pat17(gen_seg17t(r))
	case 6:
		return "*"
	}
	s := ""
	for n := 1 + r.Intn(3); n > 0; n-- {
		s += g.Pick(r, "a", "b", "*", "?", "**", "[ab]", "[^a]", "internal", ".", "\\a", "x", "-")
	}
	return pat17(s)
}

// regexp17 translates a pattern on its own: every "**" next to text ends the
// segment of that text and starts anew with any number of segments between, a
// "*" going with the text on either side. It gives up on what is malformed.
func regexp17(pattern string) (*regexp.Regexp, bool) {
	var segs []string
	for _, seg := range strings.Split(pattern, "/") {
		if !strings.Contains(seg, "**") {
			segs = append(segs, seg)
			continue
		}
		for {
			i := strings.Index(seg, "**")
			if i < 0 {
				if seg != "" {
					segs = append(segs, "*"+seg)
				}
				break
			}
			text := seg[:i]
			if len(segs) > 0 && text != "" && segs[len(segs)-1] == "\x00" {
				text = "*" + text
			}
			if text != "" {
				segs = append(segs, text+"*")
			}
			segs = append(segs, "\x00")
			seg = seg[i+2:]
		}
		// the mark is only of use within one segment
		for i := range segs {
			if segs[i] == "\x00" {
				segs[i] = "**"
			}
		}
	}
	re := "^"
	for _, seg := range segs {
		if seg == "**" {
			re += "(?:[^/]*/)*"
			continue
		}
		for i := 0; i < len(seg); i++ {
			switch c := seg[i]; c {
			case '*':
				re += "[^/]*"
			case '?':
				re += "[^/]"
			case '\\':
				i++
				if i == len(seg) {
					return nil, false
				}
				re += regexp.QuoteMeta(seg[i : i+1])
			case '[':
				j := strings.IndexByte(seg[i:], ']')
				if j < 2 || seg[i+1] == '^' && j < 3 {
					return nil, false
				}
				if seg[i+1] == '^' && strings.Contains(pattern, "**") {
					re += seg[i:i+j] + "/]"
				} else {
					re += seg[i : i+j+1]
				}
				i += j
			default:
				re += regexp.QuoteMeta(string(c))
			}
		}
		re += "/"
	}
	x, err := regexp.Compile(re + "$")
	return x, err == nil
}

func join17[T ~string](xs []T) string {
	s := make([]string, len(xs))
	for i, x := range xs {
		s[i] = string(x)
	}
	return strings.Join(s, "/")
}

// like17 makes a path that has something to do with the pattern.
func like17(ps []pat17, n uint32) []string {
	var xs []string
	for _, p := range ps {
		n = n*1664525 + 1013904223
		k := int(n >> 16)
		fill := []string{"a", "b", "x", "internal", "ab"}
		if p == "**" {
			for i := k % 3; i > 0; i-- {
				xs = append(xs, fill[(k+i)%5])
			}
			continue
		}
		s := string(p)
		between := []string{"", "a/", "/b/x", "/", "b/x/"}[k%5]
		s = strings.ReplaceAll(s, "**", "\x00")
		s = strings.ReplaceAll(s, "*", []string{"", "a", "xb"}[k%3])
		s = strings.ReplaceAll(s, "\x00", between)
		s = strings.ReplaceAll(s, "?", fill[k%3])
		s = strings.ReplaceAll(s, "[ab]", fill[k%2])
		s = strings.ReplaceAll(s, "[^a]", fill[1+k%2])
		s = strings.ReplaceAll(s, "\\", "")
		xs = append(xs, s)
	}
	return xs
}

// C17_run_pattern: a filter selects what its pattern describes.
func C17_run_pattern(ps []pat17, xs []seg17t, n uint32, how byte) {
	g.Assume(len(ps) > 0 && len(ps) <= 5 && len(xs) <= 6)
	pattern, p := join17(ps), join17(xs)
	if how%3 != 0 {
		p = strings.Join(like17(ps, n), "/")
	}
	g.Assume(p != "" && pattern != "*")
	re, ok := regexp17(pattern)
	g.Assume(ok)
	want := re.MatchString(p + "/")
	got := PackageFilter(false, pattern).Matches(at17{importPath: p})
	g.Notef("pattern %q, package %q: %v", pattern, p, got)
	g.Assert("selects what the pattern describes", got == want)
}

// C17_run_malformed: a malformed pattern selects nothing.
func C17_run_malformed(ps []pat17, xs []seg17t, i byte) {
	g.Assume(len(ps) > 0 && len(ps) <= 4)
	ps = append([]pat17(nil), ps...)
	ps[int(i)%len(ps)] = "[]"
	pattern, p := join17(ps), join17(xs)
	g.Notef("pattern %q, package %q", pattern, p)
	g.Assert("selects nothing", !PackageFilter(false, pattern).Matches(at17{importPath: p}))
}

// at17 is a position in a package.
type at17 struct {
	context.AspectContext
	importPath string
}

func (a at17) ImportPath() string { return a.importPath }

var modules17 = []string{"example.com/root", "root", "example.com/root/v2"}

var scratch17 = sync.OnceValues(func() (string, error) {
	dir, err := os.MkdirTemp("", "zz-c17-")
	if err != nil {
		return "", err
	}
	for _, m := range modules17 {
		d := filepath.Join(dir, m)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+m+"\n\ngo 1.24\n"), 0o644); err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(d, "p.go"), []byte("package p\n"), 0o644); err != nil {
			return "", err
		}
	}
	return dir, nil
})

// C17_run_root: a filter for the root module never selects other packages, and
// applies its pattern to the path within the module.
func C17_run_root(m byte, ps []pat17, xs []seg17t, n uint32, how byte) {
	dir, err := scratch17()
	g.Assume(err == nil && len(ps) <= 3 && len(xs) <= 4)
	module := modules17[int(m)%len(modules17)]
	back, err := os.Getwd()
	g.Assume(err == nil && os.Chdir(filepath.Join(dir, module)) == nil)
	defer os.Chdir(back)
	rel := join17(xs)
	if how&1 != 0 {
		rel = strings.Join(like17(ps, n), "/")
	}
	other := how>>1&3 == 0
	p := module
	if other {
		p = []string{module + "2", module + ".x", "example.com", "example.com/other", "x/" + module, "roo"}[int(how>>3)%6]
		if p == "example.com/root2" && module == "example.com/root/v2" {
			p = "example.com/root"
		}
	}
	if rel != "" {
		p += "/" + rel
	}
	pattern := join17(ps)
	want := pattern == "" || pattern == "*"
	if !want {
		re, ok := regexp17(pattern)
		g.Assume(ok)
		want = re.MatchString(g.If(rel == "", ".", rel) + "/")
	}
	g.Assume(other == !(p == module || strings.HasPrefix(p, module+"/")))
	got := PackageFilter(true, pattern).Matches(at17{importPath: p})
	g.Notef("module %q, pattern %q, package %q: %v", module, pattern, p, got)
	g.Assert("other packages are left alone", !other || !got)
	g.Assert("pattern applies to the path within the module", other || got == want)
}
