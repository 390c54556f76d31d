package code

import (
	"fmt"
	"go/token"
	"slices"
	"strings"

	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
	"github.com/dave/dst/decorator"
	"github.com/dave/dst/dstutil"
)

// comment22 is a comment, and what it says when it is a directive.
type comment22 struct {
	text string
	name string // blank when it is an ordinary comment
	args []DirectiveArgument
}

func gen_name22(r *g.Rand) string {
	return g.Pick(r, "dd:span", "dd:spans", "dd:sp", "orchestrion:enabled", "x:y-z", "span", "dd:span:x", "go:noinline")
}

func gen_comment22(r *g.Rand) comment22 {
	c := comment22{name: gen_name22(r)}
	if r.Intn(6) == 0 {
		c.text = g.Pick(r, "// "+c.name+" a:b", "/*"+c.name+"*/", "// text", "//"+c.name+"/a:b", "//x"+c.name, "/*\n//"+c.name+"\n*/", "////"+c.name)
		c.name = ""
		return c
	}
	c.text = "//" + c.name
	sep := func() string { return strings.Repeat(" ", 1+r.Intn(3)) }
	for i := range r.Intn(4) {
		arg := DirectiveArgument{Key: g.Pick(r, "key", "span.name", "a-b", "é", "k"+fmt.Sprint(i), "x/y"), Value: ""}
		space := sep()
		if i == 0 && r.Intn(6) == 0 {
			space = "\t"
		}
		c.text += space + arg.Key
		if r.Intn(4) != 0 {
			arg.Value = g.Pick(r, "v", "GET /", "a:b", "", " ", "x y  z", "é è", "true", "a:'b", `say "x`, "it's", "//", "a=b", "\\", "k:v k:w", "'", `"`, "tab\ttab", "$x {{.}}")
			quote := g.Pick(r, `"`, "'")
			if strings.Contains(arg.Value, quote) {
				quote = map[string]string{`"`: "'", "'": `"`}[quote]
			}
			plain := arg.Value != "" && !strings.ContainsAny(arg.Value, " \t'\"")
			if plain && r.Intn(2) == 0 {
				quote = ""
			}
			c.text += ":" + quote + arg.Value + quote
		}
		c.args = append(c.args, arg)
	}
	if r.Intn(4) == 0 {
		c.text += sep()
	}
	return c
}

// tree22 is code with comments in front of its nodes.
type tree22 struct {
	decl, stmt []comment22
	ask        string
	shape      int
}

func (t tree22) ZZShow() string { return t.source() + "\nasking for " + t.ask }

func gen_tree22(r *g.Rand) tree22 {
	t := tree22{ask: gen_name22(r), shape: r.Intn(4)}
	for range r.Intn(3) {
		t.decl = append(t.decl, gen_comment22(r))
	}
	for range r.Intn(3) {
		t.stmt = append(t.stmt, gen_comment22(r))
	}
	return t
}

func (t tree22) source() string {
	var sb strings.Builder
	sb.WriteString("package p\n\n")
	for _, c := range t.decl {
		sb.WriteString(c.text + "\n")
	}
	sb.WriteString("func f() {\n")
	for _, c := range t.stmt {
		sb.WriteString("\t" + c.text + "\n")
	}
	sb.WriteString([]string{"\tx := g(1)\n", "\tg(1)\n", "\tdefer g(1)\n", "\treturn g(1)\n"}[t.shape])
	sb.WriteString("}\n")
	return sb.String()
}

type at22 struct {
	context.AdviceContext
	chain *context.NodeChain
}

func (a at22) Chain() *context.NodeChain { return a.chain }
func (a at22) Node() dst.Node            { return a.chain.Node() }

func first22(comments []comment22, name string) *comment22 {
	for i := range comments {
		if comments[i].name == name {
			return &comments[i]
		}
	}
	return nil
}

// C22_run_directives: a directive applies to what follows it, and has the arguments that are written.
func C22_run_directives(t tree22) {
	dec := decorator.NewDecorator(token.NewFileSet())
	file, err := dec.Parse(t.source())
	if err != nil {
		panic(fmt.Errorf("%w\n%s", err, t.source()))
	}
	var chain *context.NodeChain
	dstutil.Apply(file, func(c *dstutil.Cursor) bool {
		if c.Node() == nil {
			return false
		}
		chain = chain.Child(c)
		ctx := at22{chain: chain}
		selected := join.Directive(t.ask).Matches(ctx)
		args := (&dot{context: ctx}).DirectiveArgs(t.ask)
		var want *comment22
		applies := false
		switch node := c.Node().(type) {
		case *dst.FuncDecl:
			want = first22(t.decl, t.ask)
			applies = want != nil
		case *dst.BasicLit:
			want = first22(t.stmt, t.ask)
			if want == nil {
				want = first22(t.decl, t.ask)
			}
		case *dst.CallExpr, *dst.AssignStmt, *dst.ExprStmt, *dst.DeferStmt, *dst.ReturnStmt:
			want = first22(t.stmt, t.ask)
			applies = want != nil
			if want == nil {
				want = first22(t.decl, t.ask)
			}
		case *dst.Ident:
			if node.Name != "g" {
				return true
			}
			want = first22(t.stmt, t.ask)
			applies = want != nil
			if want == nil {
				want = first22(t.decl, t.ask)
			}
		default:
			return true
		}
		g.Notef("%T: selected: %v, arguments %q", c.Node(), selected, args)
		g.Assert("a directive applies to what follows it", selected == applies)
		if want == nil {
			g.Assert("no directive, no arguments", len(args) == 0)
		} else {
			g.Notef("%T: arguments %q instead of %q", c.Node(), args, want.args)
			g.Assert("the arguments are those written", slices.Equal(args, want.args))
		}
		return true
	}, func(c *dstutil.Cursor) bool {
		if c.Node() != nil {
			chain = chain.Parent()
		}
		return true
	})
}

// text22 is any text.
type text22 string

func gen_text22(r *g.Rand) text22 {
	var sb strings.Builder
	for range r.Intn(12) {
		sb.WriteString(g.Pick(r, "a", ":", "'", "\"", " ", "  ", "\t", "\\", "é", "k:v", "//", "\x00", "\xff"))
	}
	return text22(sb.String())
}

// C22_run_any: whatever follows the name of a directive, it can be read.
func C22_run_any(text text22) {
	args, ok := parseDirectiveArgs("//dd:span", "//dd:span "+string(text))
	g.Notef("%q", args)
	g.Assert("it is the directive", ok)
	for _, arg := range args {
		g.Assert("there is nothing that is not written", strings.Contains(string(text), arg.Key) && strings.Contains(string(text), arg.Value))
	}
	_, ok = parseDirectiveArgs("//dd:span", "//dd:spanx "+string(text))
	g.Assert("it is another directive", !ok)
}
