//zz:deps github.com/dave/dst

package typed

import (
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/dave/dst"
)

// C21_sym_Ident: a name matches itself, in its package, and nothing else.
func C21_sym_Ident(n TypeName, path, name string) {
	got := n.Matches(&dst.Ident{Path: path, Name: name})
	g.Assert("same package, same name, no pointer", got == (!n.Pointer && n.ImportPath == path && n.Name == name))
}

// C21_sym_Pointer: a pointer matches when what it points to does.
func C21_sym_Pointer(n TypeName, path, name string) {
	got := n.Matches(&dst.StarExpr{X: &dst.Ident{Path: path, Name: name}})
	g.Assert("same package, same name, a pointer", got == (n.Pointer && n.ImportPath == path && n.Name == name))
}

// C21_sym_PointerToPointer: pointers to pointers match nothing.
func C21_sym_PointerToPointer(n TypeName, path, name string) {
	got := n.Matches(&dst.StarExpr{X: &dst.StarExpr{X: &dst.Ident{Path: path, Name: name}}})
	g.Assert("no match", !got)
}

// C21_sym_Generic: an instance matches as its generic type does.
func C21_sym_Generic(n TypeName, path, name string, many bool) {
	var x dst.Expr = &dst.Ident{Path: path, Name: name}
	if many {
		x = &dst.IndexListExpr{X: x}
	} else {
		x = &dst.IndexExpr{X: x}
	}
	g.Assert("same package, same name, no pointer", n.Matches(x) == (!n.Pointer && n.ImportPath == path && n.Name == name))
	g.Assert("or a pointer", n.Matches(&dst.StarExpr{X: x}) == (n.Pointer && n.ImportPath == path && n.Name == name))
}

// C21_sym_Interface: only the interface without methods can be denoted.
func C21_sym_Interface(n TypeName, methods []*dst.Field) {
	got := n.Matches(&dst.InterfaceType{Methods: &dst.FieldList{List: methods}})
	g.Assert("the empty interface is any", got == (len(methods) == 0 && !n.Pointer && n.ImportPath == "" && n.Name == "any"))
}

// C21_sym_Other: no other type can be denoted.
func C21_sym_Other(n TypeName, x dst.Expr, which int) {
	var e dst.Expr
	switch which {
	case 0:
		e = &dst.ArrayType{Elt: x}
	case 1:
		e = &dst.MapType{Key: x, Value: x}
	case 2:
		e = &dst.ChanType{Value: x}
	case 3:
		e = &dst.Ellipsis{Elt: x}
	case 4:
		e = &dst.FuncType{}
	default:
		e = &dst.StructType{}
	}
	g.Assert("no match", !n.Matches(e))
}

// C21_sym_Definition: a type is defined in its own package.
func C21_sym_Definition(n TypeName, name, importPath string) {
	got := n.MatchesDefinition(&dst.Ident{Name: name}, importPath)
	g.Assert("same package, same name, no pointer", got == (!n.Pointer && n.ImportPath == importPath && n.Name == name))
	got = n.MatchesDefinition(&dst.StarExpr{X: &dst.Ident{Name: name}}, importPath)
	g.Assert("same package, same name, a pointer", got == (n.Pointer && n.ImportPath == importPath && n.Name == name))
}

// C21_sym_AsNode: the node of a type matches the type.
func C21_sym_AsNode(n TypeName) {
	g.Assert("it matches itself", n.Matches(n.AsNode()))
}
