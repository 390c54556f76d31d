package injector

import (
	"bytes"
	"fmt"
	"go/scanner"
	"go/token"
	"strconv"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
)

// C18_run_imports: of the imports of a path, exactly one is retained, and not one
// without a name if there is one with a name.
func C18_run_imports(in imports18) {
	result := filterExtraneousImports(in.byPath)
	n := 0
	for _, specs := range in.byPath {
		var kept *dst.ImportSpec
		named := false
		for _, s := range specs {
			named = named || s.Name != nil
			if g.Has(result, s) {
				g.Assert("only one is retained", kept == nil)
				kept = s
				n++
			}
		}
		g.Assert("one is retained", kept != nil)
		g.Assert("a name is preferred", named == (kept.Name != nil))
	}
	g.Assert("nothing else is", n == len(result))
}

// imports18 are the imports of a file, by path.
type imports18 struct{ byPath map[string][]*dst.ImportSpec }

func gen_imports18(r *g.Rand) imports18 {
	m := map[string][]*dst.ImportSpec{}
	for _, p := range []string{"a", "b.c/d"} {
		for range r.Intn(4) {
			s := &dst.ImportSpec{Path: &dst.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}
			if r.Intn(3) > 0 {
				s.Name = &dst.Ident{Name: g.Pick(r, "_", "x", "y")}
			}
			m[p] = append(m[p], s)
		}
	}
	return imports18{m}
}

// text18 is a Go file with things that look like line directives.
type text18 struct{ src string }

func (t text18) ZZShow() string { return t.src }

func gen_text18(r *g.Rand) text18 {
	s := "package p\n"
	for i := range r.Intn(6) {
		in := g.Pick(r, "", "\t", "  ", "\t \t", "x()\t")
		d := in + "//line " + g.Pick(r, "f.go:1", "<generated>:1", "/a b/c.go:12:3", "") + g.Pick(r, "\n", "\r\n")
		switch r.Intn(6) {
		case 0:
			s += fmt.Sprintf("var a%d = `%s`\n", i, strings.ReplaceAll("\n"+d, "\r", ""))
		case 1:
			s += fmt.Sprintf("/*\n%s*/ var a%d = '\"'\n", d, i)
		case 2:
			s += fmt.Sprintf("var a%d = \"\\\"//line f.go:1\"\n", i)
		case 3:
			s += fmt.Sprintf("func f%d() {\n%s%s\tg()\n}\n", i, d, strings.Replace(d, "//line", g.Pick(r, "// line", "//line", "//lines", "//\tline"), 1))
		default:
			s += fmt.Sprintf("func f%d() {\n\tx(\n%s\t\t2)\n}\n", i, strings.Replace(d, "x()", "1,", 1))
		}
	}
	return text18{s + g.Pick(r, "", "\t//line f.go:1", " ")}
}

func scan18(src string) (toks []string) {
	var s scanner.Scanner
	s.Init(token.NewFileSet().AddFile("", -1, len(src)), []byte(src), nil, scanner.ScanComments)
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return toks
		}
		toks = append(toks, t.String()+" "+lit)
	}
}

// C18_run_directives: directives are moved to the first column, and that is all
// that is done to the text.
func C18_run_directives(t text18) {
	out := string(postProcess([]byte(t.src)))
	a, b := scan18(t.src), scan18(out)
	g.Notef("%q\nbecomes\n%q", t.src, out)
	g.Assert("the same tokens", strings.Join(a, "\x00") == strings.Join(b, "\x00"))
	x, y := strings.Split(t.src, "\n"), strings.Split(out, "\n")
	g.Assert("the same lines", len(x) == len(y))
	for i := range x {
		g.Assert("only blanks before directives are removed", x[i] == y[i] || strings.HasPrefix(y[i], "//line ") && strings.TrimLeft(x[i], " \t") == y[i])
	}
	g.Assert("and all of them", !bytes.Contains([]byte(strings.Join(scan18lines(out), "\n")), []byte("\t//line ")))
}

// scan18lines are the starts of lines, up to directives.
func scan18lines(src string) (out []string) {
	var s scanner.Scanner
	f := token.NewFileSet().AddFile("", -1, len(src))
	s.Init(f, []byte(src), nil, scanner.ScanComments)
	for {
		p, t, lit := s.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.COMMENT && strings.HasPrefix(lit, "//line ") {
			o := f.Offset(p)
			start := strings.LastIndexByte(src[:o], '\n') + 1
			if strings.Trim(src[start:o], " \t") == "" && start < o {
				out = append(out, "\t//line ")
			}
		}
	}
}
