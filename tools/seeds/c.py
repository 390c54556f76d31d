make('c16-digits', 'C16', 'a file that starts with a line directive for a line such as 10 or 100, and gets code woven into it',
     'the digits of the position are read in reverse order, so that line 10 is taken for line 1: the directive is dropped, and the file is reported as if it started at line 1',
     'internal/injector/parse',
     [('internal/injector/parse/mappedfilename.go', '''		pos += pow * int(buf[cutOff]-'0')
''', '''		pos = pos*10 + int(buf[cutOff]-'0')
''')],
     '''
package parse

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for src, want := range map[string]string{"//line a.go:1\\npackage a\\n": "a.go", "//line a.go:10\\npackage a\\n": "", "//line a.go:100:1\\npackage a\\n": "", "//line a.go:12\\npackage a\\n": "", "//line a.go:1:1\\npackage a\\n": "a.go"} {
		got, err := ConsumeLineDirective(strings.NewReader(src))
		if err != nil || got != want {
			t.Errorf("%q: %q %v", src, got, err)
		}
	}
}
''')
make('c19-any-import', 'C19', 'a file that uses the package name of the template for another package (import mux "other/router"), while it imports the package of the template under another name',
     'the scope check only tells that the name is an import, not that it is the right one',
     'internal/injector/typed',
     [('internal/injector/typed/refmap.go', '''			return pkg.Imported().Path() == path
''', '''			return pkg.Imported().Path() == path || pkg.Imported().Name() != pkg.Name()
''')],
     '''
package typed

import (
	"go/ast"
	"go/token"
	"go/types"
	"testing"

	"github.com/dave/dst"
)

func TestZZDemo(t *testing.T) {
	for alias, want := range map[string]bool{"lib": false, "mux": true} {
		other := types.NewPackage("example.com/other", "other")
		body, dbody := &ast.BlockStmt{}, &dst.BlockStmt{}
		scope := types.NewScope(types.Universe, token.NoPos, token.NoPos, "file")
		scope.Insert(types.NewPkgName(token.NoPos, nil, "mux", other))
		_ = alias
		r := NewReferenceMap(map[dst.Node]ast.Node{dbody: body}, map[ast.Node]*types.Scope{body: scope})
		file := &dst.File{Imports: []*dst.ImportSpec{
			{Name: dst.NewIdent("lib"), Path: &dst.BasicLit{Kind: token.STRING, Value: "\\"example.com/lib\\""}},
			{Name: dst.NewIdent("mux"), Path: &dst.BasicLit{Kind: token.STRING, Value: "\\"example.com/other\\""}},
		}}
		path := "example.com/lib"
		if want {
			path = "example.com/other"
		}
		if added := r.AddImport(file, []dst.Node{dbody}, path, "mux"); added == want {
			t.Errorf("%s as mux: added %v", path, added)
		}
	}
}
''')
make('c18-raw-path', 'C18', 'a woven file that imports a package twice, once with a raw string literal as the path',
     'the two imports are not recognized as the same one, and are both kept',
     'internal/injector',
     [('internal/injector/imports.go', '''		path, err := strconv.Unquote(imp.Path.Value)
''', '''		path, err := strconv.Unquote(strconv.Quote(strings.Trim(imp.Path.Value, `"`)))
'''), ('internal/injector/imports.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
     '''
package injector

import (
	"context"
	"go/token"
	"testing"

	"github.com/dave/dst"
)

func TestZZDemo(t *testing.T) {
	specs := []*dst.ImportSpec{
		{Name: dst.NewIdent("a"), Path: &dst.BasicLit{Kind: token.STRING, Value: `"example.com/lib"`}},
		{Name: dst.NewIdent("b"), Path: &dst.BasicLit{Kind: token.STRING, Value: "`example.com/lib`"}},
	}
	file := &dst.File{Name: dst.NewIdent("p"), Imports: specs, Decls: []dst.Decl{&dst.GenDecl{Tok: token.IMPORT, Specs: []dst.Spec{specs[0], specs[1]}}}}
	canonicalizeImports(context.Background(), file)
	if len(file.Imports) != 1 {
		t.Errorf("%d imports of the package are left", len(file.Imports))
	}
}
''')
