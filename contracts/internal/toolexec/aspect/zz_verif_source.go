package aspect

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"path/filepath"
	"regexp"
	"slices"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// program is a package with more diverse source than a weaving has by itself.
type program struct{ weaving }

func (p program) ZZShow() string { return p.weaving.ZZShow() }

// decls are pieces of source: # is a number found nowhere else, @ the number of
// the declaration, L the imported package.
var decls = []string{
	"func f@(a int) (r int) {\n\tif a > # { // odd\n\t\treturn a + #\n\t}\n\treturn f@(a + #)\n}",
	"func f@(a int) int {\n\tfor i := #; i < a; i++ {\n\t\tL.Do(#, i)\n\n\t\tL.Do(\n\t\t\t#,\n\t\t\ta,\n\t\t)\n\t}\n\treturn #\n}",
	"func f@(a int) int {\n\tswitch x := a + #; {\n\tcase x > #:\n\t\treturn L.Do(#)\n\tdefault:\n\t\tdefer L.Do(#)\n\t}\n\treturn func() int {\n\t\treturn L.Do(#)\n\t}()\n}",
	"func f@(a int) int {\n\tc := make(chan int, #)\n\tselect {\n\tcase v := <-c:\n\t\treturn v + #\n\tdefault:\n\t}\n\treturn L.Do(#) + L.Do(#)\n}",
	"const k@ = `a\n\tb #\n\n  c`",
	"var v@ int = # // v",
	"var (\n\tw@a = L.Do(#)\n\n\t// doc\n\tw@b, w@c = #, #\n)",
	"type t@ struct {\n\ta int `json:\"a#\"` // field\n\tb [#]byte\n}\n\n// m does.\n//\n//go:noinline\nfunc (t *t@) f@(a int) int {\n\treturn t.a + #\n}",
	"func g@[T any](x T, a int) T {\n\tL.Do(#)\n\treturn x\n}",
	"func f@(a int) int {\nloop:\n\tfor n := #; n > 0; n-- {\n\t\tif a > # {\n\t\t\tbreak loop\n\t\t} else if L.Do(#) > 0 {\n\t\t\tcontinue loop\n\t\t}\n\t\t{\n\t\t\ta += #\n\t\t}\n\t}\n\treturn a\n}",
	"/* block\n comment */\nfunc f@(a int) int {\n\t// only a comment\n\t_ = []int{\n\t\t#, // one\n\t\t#,\n\t}\n\n\n\tgo func() { println(#) }()\n\treturn map[string]int{\"a\": #}[\"a\"]\n}",
	"const (\n\tc@a = iota + #\n\tc@b\n)",
	"func f@(a int) int { a += #; if a > # { return # }; return # }",
	"func init() {\n\tL.Do(#)\n}",
	"func f@(\n\ta int,\n) (\n\tr int,\n) {\n\tr = a +\n\t\tL.Do(#) +\n\t\t#\n\treturn\n}",
	"var e@ = func(a int) int {\n\treturn L.Do(#)\n}(#)",
	"type i@ interface {\n\t// f is documented.\n\tf(a [#]int)\n\n\tg() [#]int\n}",
	"func f@(a int) int {\n\tif x := L.Do(#); x > 0 {\n\t\tpanic(#)\n\t}\n\t// last words\n\treturn L.Do(L.Do(#), #)\n}",
}

// oneLine are functions written on one line, in which calls can be woven.
var oneLine = []string{
	"//go:noinline\nfunc f@(a int) int { return L.Do(#) }",
	"func f@(a int) int {\n\tgo func() { L.Do(#) }()\n\treturn #\n}",
}

func gen_program(r *g.Rand) program {
	p := program{weaving{path: g.Pick(r, "example.com/app/p", "example.com/app"), lang: 24}}
	p.name = filepath.Base(p.path)
	n, mark := 0, 10000
	for range 1 + r.Intn(2) {
		var f file11
		L := []string{"lib"}
		imports := "import \"a.com/lib\"\n"
		switch r.Intn(8) {
		case 0:
			L, imports = []string{"l9"}, "import l9 \"a.com/lib\"\n"
		case 1:
			L, imports = []string{"l9", "lib"}, "import (\n\t\"a.com/lib\"\n\tl9 \"a.com/lib\"\n)\n"
		case 2:
			L, imports = []string{"l9"}, "import (\n\t_ \"a.com/lib\"\n\tl9 \"a.com/lib\" // twice\n)\n"
		case 3:
			L, imports = []string{"l9", "lib"}, "import l9 \"a.com/lib\"\nimport _ \"a.com/lib\"\n\nimport (\n\t\"a.com/lib\"\n)\n"
		case 4:
			L, imports = []string{"l9"}, "import (\n\t_ \"a.com/lib\"\n\t_ \"a.com/lib\"\n\n\t// the one\n\tl9 \"a.com/lib\"\n)\n"
		case 5:
			L, imports = []string{"l9", "l8"}, "import (\n\tl9 \"a.com/lib\"\n\tl8 \"a.com/lib\"\n)\n"
		}
		for i, part := range strings.Split(imports, "\"a.com/lib\"") {
			switch {
			case i == 0:
				imports = part
			case r.Intn(6) == 0:
				imports += "`a.com/lib`" + part
			default:
				imports += "\"a.com/lib\"" + part
			}
		}
		s := g.Pick(r, "", "", "", "// Copyright\n\n", "// Copyright\n\n//go:build !none\n\n", "/* c */ ") + "package " + p.name + "\n\n" + imports
		for _, l := range L {
			s += "\nvar _ = " + l + ".Other\n"
		}
		for range r.Intn(5) {
			d := g.Pick(r, append(slices.Clone(decls), oneLine...)...)
			switch {
			case strings.HasPrefix(d, "var v@"):
				f.vars = append(f.vars, n)
			case strings.Contains(d, " f@("):
				f.funcs = append(f.funcs, n)
			}
			for range strings.Count(d, "L.") {
				f.calls = append(f.calls, n)
			}
			d = strings.ReplaceAll(d, "@", fmt.Sprint(n))
			n++
			for strings.Contains(d, "#") {
				d = strings.Replace(d, "#", fmt.Sprint(mark), 1)
				mark++
			}
			for strings.Contains(d, "L.") {
				d = strings.Replace(d, "L.", g.Pick(r, L...)+".", 1)
			}
			s += g.Pick(r, "\n", "\n", "", "\n\n\n", "\n// free comment\n\n", "\n// doc\n") + d + "\n"
		}
		if r.Intn(8) == 0 {
			s = strings.ReplaceAll(s, "\n\t", "\n  ")
		}
		if r.Intn(8) == 0 {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
		switch r.Intn(6) {
		case 0:
			s = fmt.Sprintf("//line /src/app/orig%d.go:1:1\n", len(p.files)) + s
		case 1:
			s = fmt.Sprintf("//line /src/app/orig%d.go:1\n", len(p.files)) + s
		case 2:
			s = strings.TrimSuffix(s, "\n")
		}
		p.files = append(p.files, f)
		p.texts = append(p.texts, s)
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		p.aspects = append(p.aspects, aspect11{kind: r.Intn(kinds), target: r.Intn(n + 1), advice: []advice11{{}}})
	}
	return p
}

// marks are the positions of the unique numbers of a source file.
func marks(name, src string) (map[string]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT && len(l.Value) == 5 {
			p := fset.Position(l.Pos())
			out[l.Value] = fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
		if id, ok := n.(*ast.Ident); ok && strings.ContainsAny(id.Name, "0123456789") && id.Obj != nil && id.Obj.Pos() == id.Pos() {
			p := fset.Position(id.Pos())
			out[id.Name] = fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
		return true
	})
	return out, nil
}

var oneLiner = regexp.MustCompile(`func(?: f\d+)?\([^()]*\)(?: int)? \{ .*\bl(?:ib|\d)\.Do\(.*\}`)

// C16_run_positions: what was written keeps its position (but see
// C16_KF_one_line).
func C16_run_positions(p program) {
	for _, src := range p.texts {
		g.Assume(!oneLiner.MatchString(src))
	}
	positions(p, false)
}

// C16_KF_one_line: a function written on one line is woven on several; its
// statement is then reported one line too low.
func C16_KF_one_line() {
	p := program{weaving{path: "example.com/app", name: "app", lang: 24, files: []file11{{calls: []int{0}}}}}
	p.texts = []string{"package app\n\nimport \"a.com/lib\"\n\nfunc f0(a int) int { return lib.Do(10000) }\n"}
	p.aspects = []aspect11{{kind: appendArgs, advice: []advice11{{}}}}
	positions(p, false)
}

// C16_KF_return: the position of a function literal that is injected as the
// value of a return statement is not marked as generated.
func C16_KF_return() {
	p := program{weaving{path: "example.com/app", name: "app", lang: 24, files: []file11{{calls: []int{0}}}}}
	p.texts = []string{"package app\n\nimport \"a.com/lib\"\n\nfunc f0(a int) int {\n\treturn lib.Do(10000)\n}\n"}
	p.aspects = []aspect11{{kind: wrap, advice: []advice11{{}}}}
	positions(p, true)
}

var misplaced = regexp.MustCompile(`return func ?//line <generated>`)

// An injectedMark is an injected number, with its position; afterReturn is set
// when it is in a function literal as in C16_KF_return.
type injectedMark struct {
	value, at   string
	afterReturn bool
}

func injectedMarks(src string) (out []injectedMark) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "/elsewhere/woven.go", src, 0)
	if err != nil {
		return nil
	}
	lines := strings.Split(src, "\n")
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && injected.MatchString(l.Value) {
			k := fset.PositionFor(l.Pos(), false).Line - 1
			for k > 0 && !strings.Contains(lines[k], "//line ") {
				k--
			}
			out = append(out, injectedMark{l.Value, fset.Position(l.Pos()).String(), misplaced.MatchString(lines[k])})
		}
		return true
	})
	return out
}

func positions(p program, known bool) {
	for i, src := range p.texts {
		for range 3 { // comments take more than one
			formatted, err := format.Source([]byte(src))
			g.Assume(err == nil)
			src = string(formatted)
		}
		p.texts[i] = src
	}
	o := p.weaveAll(true)
	for i, src := range o.sources {
		if o.woven[i] == src {
			continue
		}
		name := filepath.Join(o.dir, fmt.Sprintf("src/f%d.go", i))
		before, err := marks(name, p.texts[i])
		g.Assume(err == nil)
		after, err := marks("/elsewhere/woven.go", o.woven[i])
		g.Notef("%v\n%s", err, o.woven[i])
		g.Assert("the woven file is a Go file", err == nil)
		assigned := 0
		for m, at := range before {
			if _, found := after[m]; !found && assigned < len(p.aspects) && m[0] == '1' {
				assigned++ // the value of a variable was replaced
				continue
			}
			g.Notef("%s written at %s, woven at %s\n%s", m, at, after[m], o.woven[i])
			g.Assert("code keeps its position", after[m] == at)
		}
		for _, m := range injectedMarks(o.woven[i]) {
			if known || !m.afterReturn {
				g.Notef("%s woven at %s\n%s", m.value, m.at, o.woven[i])
				g.Assert("injected code is reported as generated", strings.Contains(m.at, "<generated>"))
			}
		}
	}
	g.Cover("positions")
}

// tokens lists the tokens after the imports, without what layout decides.
func tokens(src string) (toks, comments, directives []string, err error) {
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", -1, len(src)), []byte(src), func(_ token.Position, msg string) { err = fmt.Errorf("%s", msg) }, scanner.ScanComments)
	imports := 0 // 1: in an import, 2: in a group of them
	var pending []string
	inImports := false // those are rearranged, with their comments
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.COMMENT {
			lit = strings.Join(strings.Fields(lit), " ")
			if strings.HasPrefix(lit, "//line ") {
				continue
			}
			if !inImports && lit != "//" {
				comments = append(comments, lit)
			}
			if strings.HasPrefix(lit, "//go:") {
				pending = append(pending, lit)
			}
			continue
		}
		switch {
		case t == token.IMPORT:
			imports, inImports = 1, true
			continue
		case imports == 1 && t == token.LPAREN:
			imports = 2
			continue
		case imports == 1 && t == token.SEMICOLON, imports == 2 && t == token.RPAREN:
			imports = 0
			continue
		case imports > 0 || t == token.SEMICOLON:
			continue
		}
		inImports = false
		if lit == "" || t.IsOperator() || t.IsKeyword() {
			lit = t.String()
		}
		lit = strings.ReplaceAll(lit, "\r", "")
		if lit == "l9" || lit == "l8" {
			lit = "lib"
		}
		if k := len(toks) - 1; k >= 0 && toks[k] == "," && (lit == ")" || lit == "}") {
			toks = toks[:k]
		}
		toks = append(toks, lit)
		for _, d := range pending {
			directives = append(directives, fmt.Sprintf("%s before token %s", d, lit))
		}
		pending = nil
	}
	return toks, comments, directives, err
}

var injected = regexp.MustCompile(`^(inj)?7\d\d\d$`)

// without removes what advice adds from the tokens of a woven file.
func without(toks []string) []string {
	wrapper := strings.Fields("func ( x int ) int { println ( 7 ) return x } (")
	at := func(i int, what ...string) bool {
		for k, w := range what {
			if i+k >= len(toks) || !(toks[i+k] == w || w == "7" && injected.MatchString(toks[i+k])) {
				return false
			}
		}
		return true
	}
	var out []string
	var closing []int // depths of the parentheses of wrappers
	depth := 0
	for i := 0; i < len(toks); i++ {
		switch {
		case at(i, wrapper...):
			i += len(wrapper) - 1
			closing = append(closing, depth)
			depth++
			continue
		case at(i, "{", "println", "(", "7", ")"):
			k := i + 1
			for at(k, "println", "(", "7", ")") {
				k += 4
			}
			if at(k, "}") {
				i = k
				continue
			}
		case at(i, "const", "7", "=", "7"):
			i += 3
			continue
		case at(i, ",", "7"):
			i++
			continue
		case toks[i] == "(":
			depth++
		case toks[i] == ")":
			depth--
			if n := len(closing) - 1; n >= 0 && closing[n] == depth {
				closing = closing[:n]
				continue
			}
		}
		out = append(out, toks[i])
	}
	// values of variables may have been replaced
	for i := 0; i+3 < len(out); i++ {
		if len(out[i]) > 1 && out[i][0] == 'v' && out[i+1] == "int" && out[i+2] == "=" {
			out[i+3] = "?"
		}
	}
	return out
}

// C18_run_rest: but for what advice adds, the woven file is the original.
func C18_run_rest(p program) {
	o := p.weaveAll(true)
	for i, src := range o.sources {
		if o.woven[i] == src {
			continue
		}
		t0, c0, d0, err := tokens(p.texts[i])
		g.Assume(err == nil)
		t1, c1, d1, err := tokens(o.woven[i])
		g.Notef("%v\n%s", err, o.woven[i])
		g.Assert("the woven file is a Go file", err == nil)
		t0, t1 = without(t0), without(t1)
		k := 0
		for k < len(t0) && k < len(t1) && t0[k] == t1[k] {
			k++
		}
		g.Notef("from %q on\nwoven %q\n%s", t0[k:min(len(t0), k+9)], t1[k:min(len(t1), k+9)], o.woven[i])
		g.Assert("the rest of the program is as it was", k == len(t0) && k == len(t1))
		slices.Sort(c0)
		slices.Sort(c1)
		g.Notef("comments %q\nwoven %q\n%s", c0, c1, o.woven[i])
		g.Assert("comments are kept", slices.Equal(c0, c1))
		g.Notef("directives %q\nwoven %q\n%s", d0, d1, o.woven[i])
		g.Assert("directives stay where they were", slices.Equal(d0, d1))
	}
	g.Cover("rest")
}
