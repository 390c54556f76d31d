package join

import (
	"strings"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/typed"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// pieces cuts the text of a value at the end-of-value marks.
func pieces(v fingerprint.Hashable) (a, b, c, d string) {
	t := fingerprint.ZZText(v)
	a, t, _ = strings.Cut(t, "\x03")
	b, t, _ = strings.Cut(t, "\x03")
	c, t, _ = strings.Cut(t, "\x03")
	d, _, _ = strings.Cut(t, "\x03")
	return
}

// more and last are the sixth and the seventh piece.
func more(v fingerprint.Hashable) string {
	t := fingerprint.ZZText(v)
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	t, _, _ = strings.Cut(t, "\x03")
	return t
}

func last(v fingerprint.Hashable) string {
	t := fingerprint.ZZText(v)
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	_, t, _ = strings.Cut(t, "\x03")
	t, _, _ = strings.Cut(t, "\x03")
	return t
}

// agree: the first pieces of the two texts agree (as they do when the texts are equal).
func agree(x, y fingerprint.Hashable) bool {
	a1, b1, c1, d1 := pieces(x)
	a2, b2, c2, d2 := pieces(y)
	return g.And(a1 == a2, b1 == b2, c1 == c2, d1 == d2)
}

func clean(s ...string) bool {
	ok := true
	for _, x := range s {
		ok = g.And(ok, fingerprint.ZZPlain(x))
	}
	return ok
}

func cleanT(a, b typed.TypeName) bool {
	return clean(a.Name, a.ImportPath, b.Name, b.ImportPath)
}

func C02_importPath(a, b importPath) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_packageName(a, b packageName) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_path_is_no_name(a importPath, b packageName) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("a package name is no import path", !agree(a, b))
	g.Cover("ok")
}

func C02_packageFilter(a, b packageFilter) {
	g.Assume(clean(a.pattern, b.pattern))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), g.And(a.root == b.root, a.pattern == b.pattern)))
	g.Cover("ok")
}

func C02_functionCall(a, b *functionCall) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(clean(a.ImportPath, a.Name, b.ImportPath, b.Name))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), g.And(a.ImportPath == b.ImportPath, a.Name == b.Name)))
	g.Cover("ok")
}

func C02_declarationOf(a, b *declarationOf) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(clean(a.ImportPath, a.Name, b.ImportPath, b.Name))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), g.And(a.ImportPath == b.ImportPath, a.Name == b.Name)))
	g.Cover("ok")
}

func C02_valueDeclaration(a, b *valueDeclaration) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(cleanT(a.TypeName, b.TypeName))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a.TypeName == b.TypeName))
	g.Cover("ok")
}

func C02_structDefinition(a, b *structDefinition) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(cleanT(a.TypeName, b.TypeName))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a.TypeName == b.TypeName))
	g.Cover("ok")
}

func C02_receiver(a, b *receiver) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(cleanT(a.TypeName, b.TypeName))
	g.NoPanic()
	g.Assert("different options, different text", g.Implies(agree(a, b), a.TypeName == b.TypeName))
	g.Cover("ok")
}

func C02_hasReceiver(a, b hasReceiver) {
	g.NoPanic()
	g.Assert("different options, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_testMain(a, b testMain) {
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_directive(a, b directive) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("different join points, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_functionName(a, b functionName) {
	g.Assume(clean(string(a), string(b)))
	g.NoPanic()
	g.Assert("different options, different text", g.Implies(agree(a, b), a == b))
	g.Cover("ok")
}

func C02_implements(a, b *resultImplements, c, d *finalResultImplements, e, f *argumentImplements) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(c != nil)
	g.Assume(d != nil)
	g.Assume(e != nil)
	g.Assume(f != nil)
	g.Assume(clean(a.InterfaceName, b.InterfaceName, c.InterfaceName, d.InterfaceName, e.InterfaceName, f.InterfaceName))
	g.NoPanic()
	g.Assert("result", g.Implies(agree(a, b), a.InterfaceName == b.InterfaceName))
	g.Assert("final result", g.Implies(agree(c, d), c.InterfaceName == d.InterfaceName))
	g.Assert("argument", g.Implies(agree(e, f), e.InterfaceName == f.InterfaceName))
	g.Assert("result is not final result", !agree(a, c))
	g.Assert("result is not argument", !agree(a, e))
	g.Assert("final result is not argument", !agree(c, e))
	g.Cover("ok")
}

// ---------------------------------------------------------------- bounded part

func word02(r *g.Rand) string {
	return g.Pick(r, "a", "b", "", "main", "net/http", "x/y", "true", "false", "0", "1", "list", "map", "name", "not")
}

func type02(r *g.Rand) typed.TypeName {
	return typed.TypeName{ImportPath: word02(r), Name: g.Pick(r, "T", "U", "any"), Pointer: r.Intn(2) == 0}
}

func types02(r *g.Rand) (l []typed.TypeName) {
	for n := r.Intn(3); n > 0; n-- {
		l = append(l, type02(r))
	}
	return
}

func points02(r *g.Rand, d int) (l []Point) {
	for n := r.Intn(3); n > 0; n-- {
		l = append(l, mkPoint02(r, d))
	}
	return
}

type hashed02 struct{ Point }

func gen_hashed02(r *g.Rand) hashed02 { return hashed02{mkPoint02(r, 2)} }

func mkPoint02(r *g.Rand, d int) Point {
	k := r.Intn(19)
	if d == 0 && k >= 14 {
		k -= 14
	}
	switch k {
	case 0:
		return importPath(word02(r))
	case 1:
		return packageName(word02(r))
	case 2:
		return packageFilter{root: r.Intn(2) == 0, pattern: word02(r)}
	case 3:
		return &functionCall{word02(r), word02(r)}
	case 4:
		return &methodCall{Receiver: type02(r), Name: word02(r), Match: MethodCallMatch(r.Intn(3))}
	case 5:
		return &structDefinition{type02(r)}
	case 6:
		return &structLiteral{TypeName: type02(r), Field: word02(r), Match: StructLiteralMatch(r.Intn(3))}
	case 7:
		return directive(word02(r))
	case 8, 9:
		m := configuration{}
		for n := r.Intn(3); n > 0; n-- {
			m[word02(r)] = word02(r)
		}
		return m
	case 10:
		return &declarationOf{word02(r), word02(r)}
	case 11:
		return &valueDeclaration{type02(r)}
	case 12:
		return testMain(r.Intn(2) == 0)
	case 13:
		var os []FunctionOption
		for n := r.Intn(3); n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				os = append(os, functionName(word02(r)))
			case 1:
				os = append(os, &signature{types02(r), types02(r)})
			case 2:
				os = append(os, &signatureContains{signature{types02(r), types02(r)}})
			case 3:
				os = append(os, &receiver{type02(r)})
			case 4:
				os = append(os, hasReceiver(r.Intn(2) == 0))
			case 5:
				os = append(os, &resultImplements{word02(r)})
			case 6:
				os = append(os, &finalResultImplements{word02(r)})
			case 7:
				os = append(os, &argumentImplements{word02(r)})
			}
		}
		return &functionDeclaration{Options: os}
	case 14:
		return &functionBody{mkPoint02(r, d-1)}
	case 15:
		return not{mkPoint02(r, d-1)}
	case 16, 17:
		return allOf(points02(r, d-1))
	}
	return oneOf(points02(r, d-1))
}

// C02_run_points: two join points have one fingerprint exactly when they are the
// same; the second one is drawn until it has the kind of the first.
func C02_run_points(a hashed02, b hashed02) {
	same := g.Dump(a.Point) == g.Dump(b.Point)
	g.Assert("equal join points, equal text; different join points, different text", (fingerprint.ZZText(a.Point) == fingerprint.ZZText(b.Point)) == same)
	fa, e1 := fingerprint.Fingerprint(a.Point)
	fb, e2 := fingerprint.Fingerprint(b.Point)
	g.Assert("fingerprints", e1 == nil && e2 == nil && (fa == fb) == same)
}

type pair02 struct{ a, b Point }

func gen_pair02(r *g.Rand) pair02 {
	a := mkPoint02(r, 2)
	if r.Intn(2) == 0 {
		return pair02{a, g.Near(r, a)}
	}
	for range 60 {
		b := mkPoint02(r, 2)
		x, y := g.Dump(a), g.Dump(b)
		if x[:min(len(x), 12)] == y[:min(len(y), 12)] {
			return pair02{a, b}
		}
	}
	return pair02{a, a}
}

// C02_run_alike: the same for two join points of one kind.
func C02_run_alike(p pair02) { C02_run_points(hashed02{p.a}, hashed02{p.b}) }

func C02_methodCall(a, b *methodCall) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(cleanT(a.Receiver, b.Receiver))
	g.Assume(clean(a.Name, b.Name))
	g.Assume(g.And(a.Match >= 0, a.Match < 10, b.Match >= 0, b.Match < 10))
	g.NoPanic()
	same := g.And(agree(a, b), more(a) == more(b), last(a) == last(b))
	g.Assert("receiver", g.Implies(same, a.Receiver == b.Receiver))
	g.Assert("name", g.Implies(same, a.Name == b.Name))
	g.Assert("match", g.Implies(same, a.Match == b.Match))
	g.Cover("ok")
}

func C02_structLiteral(a, b *structLiteral) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(cleanT(a.TypeName, b.TypeName))
	g.Assume(clean(a.Field, b.Field))
	g.Assume(g.And(a.Match >= 0, a.Match < 10, b.Match >= 0, b.Match < 10))
	g.NoPanic()
	same := g.And(agree(a, b), more(a) == more(b), last(a) == last(b))
	g.Assert("type", g.Implies(same, a.TypeName == b.TypeName))
	g.Assert("field", g.Implies(same, a.Field == b.Field))
	g.Assert("match", g.Implies(same, a.Match == b.Match))
	g.Cover("ok")
}
