make('c08-last-equals', 'C08', 'a flag with a value that contains an equal sign, given as one argument',
     'the flag is cut at the last equal sign, is not known by that name, and is not passed on to child builds',
     'internal/goflags',
     [('internal/goflags/flags.go', '''		if key, val, isAssigned := strings.Cut(normArg, "="); isAssigned {
''', '''		if sep := strings.LastIndex(normArg, "="); sep >= 0 {
			key, val := normArg[:sep], normArg[sep+1:]
''')],
     '''
package goflags

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	t.Setenv("GOFLAGS", "")
	flags, err := ParseCommandFlags(context.Background(), t.TempDir(), []string{"build", "-gcflags=all=-N -l", "."})
	if err != nil {
		t.Fatal(err)
	}
	if flags.Long["-gcflags"] != "all=-N -l" {
		t.Errorf("flags: %v", flags)
	}
}
''')
make('c09-stdin', 'C09', 'a go command, or the program it runs, which reads its standard input',
     'the standard input of the wrapped go command is empty',
     'internal/goproxy',
     [('internal/goproxy/proxy.go', '''	cmd.Stdin = os.Stdin
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr

	return cmd, nil
''', '''	if len(argv) > 1 && argv[1] != "run" {
		cmd.Stdin = os.Stdin
	}
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr

	return cmd, nil
''')],
     '''
package goproxy

import (
	"context"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	cmd, err := BuildCmd(context.Background(), []string{"run", "./x"})
	if err != nil {
		t.Fatal(err)
	}
	if cmd.Stdin != os.Stdin {
		t.Error("the program does not get the input")
	}
}
''')
make('c20-missing-extends', 'C20', 'a document that extends a file which does not exist',
     'the document, and all its aspects, are left out without an error',
     'internal/injector/config',
     [('internal/injector/config/config-yml.go', '''		if stat, err := os.Stat(extFilename); err != nil {
			return nil, maskErrNotExist(err)
''', '''		if stat, err := os.Stat(extFilename); err != nil {
			return nil, fmt.Errorf("extends %q: %w", ext, err)
''')],
     '''
package config

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "doc.go"), []byte("package p\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "orchestrion.yml"), []byte("meta: {name: n, description: d}\\nextends: [./missing.yml]\\naspects: [{id: a, join-point: {package-name: main}, advice: [add-blank-import: unsafe]}]\\n"), 0o644)
	loader := func(context.Context, string, ...string) ([]*packages.Package, error) {
		return []*packages.Package{{PkgPath: "example.com/m", GoFiles: []string{filepath.Join(dir, "doc.go")}}}, nil
	}
	cfg, err := NewLoader(loader, dir, false).Load(context.Background())
	if err == nil {
		t.Errorf("no error, and %d aspects", len(cfg.Aspects()))
	}
}
''')
make('c20-mark-name', 'C20', 'two directories which have a document of the same name, both reached through extends',
     'the second document is taken for the first one, and left out',
     'internal/injector/config',
     [('internal/injector/config/config-yml.go', '''	if !l.markLoaded(filename) {
''', '''	if !l.markLoaded(filename) || (name != FilenameOrchestrionYML && !l.markLoaded(filepath.Clean(name))) {
''')],
     '''
package config

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	write := func(name, text string) {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644)
	}
	aspect := func(id string) string {
		return "meta: {name: n, description: d}\\naspects: [{id: " + id + ", join-point: {package-name: main}, advice: [add-blank-import: unsafe]}]\\n"
	}
	write("doc.go", "package p\\n")
	write("orchestrion.yml", aspect("own")+"extends: [./http.yml, ./b/all.yml]\\n")
	write("http.yml", aspect("a"))
	write("b/all.yml", aspect("all")+"extends: [./http.yml]\\n")
	write("b/http.yml", aspect("b"))
	loader := func(context.Context, string, ...string) ([]*packages.Package, error) {
		return []*packages.Package{{PkgPath: "example.com/m", GoFiles: []string{filepath.Join(dir, "doc.go")}}}, nil
	}
	cfg, err := NewLoader(loader, dir, false).Load(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	if n := len(cfg.Aspects()); n != 4 {
		t.Errorf("%d aspects", n)
	}
}
''')
make('c21-shared-type', 'C21', 'a template that asks for an argument by its type, after arguments which share one type',
     'the name is that of another argument',
     'internal/injector/typed',
     [('internal/injector/typed/typename.go', '''		count := len(field.Names)
		if count == 0 {
			count = 1
		}
		currentIndex += count
''', '''		currentIndex++
''')],
     '''
package typed

import (
	"testing"

	"github.com/dave/dst"
)

func TestZZDemo(t *testing.T) {
	list := &dst.FieldList{List: []*dst.Field{
		{Names: []*dst.Ident{dst.NewIdent("a"), dst.NewIdent("b")}, Type: dst.NewIdent("string")},
		{Names: []*dst.Ident{dst.NewIdent("err")}, Type: dst.NewIdent("error")},
	}}
	if index, found := FindMatchingTypeName(list, "error"); !found || index != 2 {
		t.Errorf("index %d", index)
	}
}
''')
make('c22-apostrophe', 'C22', 'a directive with an argument in double quotes that has an apostrophe, and another argument after it',
     'the two arguments are taken for one',
     'internal/injector/aspect/advice/code',
     [('internal/injector/aspect/advice/code/dot_directive.go', '''			if !doubleQuote {
				singleQuote = !singleQuote
			}
''', '''			singleQuote = !singleQuote
''')],
     '''
package code

import "testing"

func TestZZDemo(t *testing.T) {
	args, ok := parseDirectiveArgs("//dd:span", `//dd:span title:"it's here" kind:server`)
	if !ok || len(args) != 2 || args[0].Value != "it's here" || args[1].Value != "server" {
		t.Errorf("arguments: %q", args)
	}
}
''')
make('c22-other-blank', 'C22', 'a comment with a directive name that goes on after a character which is no letter or digit',
     'another directive is taken for the one that is asked for',
     'internal/injector/aspect/join',
     [('internal/injector/aspect/join/directive.go', '''	return size == 0 || unicode.IsSpace(r)
''', '''	return size == 0 || (!unicode.IsLetter(r) && !unicode.IsDigit(r))
''')],
     '''
package join

import "testing"

func TestZZDemo(t *testing.T) {
	if Directive("dd:span").matches("//dd:span-link x") {
		t.Error("//dd:span-link is taken for //dd:span")
	}
}
''')
make('c23-below', 'C23', 'a tool file that imports a package without configuration, and one with configuration below it',
     'both imports are removed',
     'internal/pin',
     [('internal/pin/importset.go', '''				if path != toRemove {
					return false
				}
				csor.Delete()
''', '''				if len(path) < len(toRemove) || path[:len(toRemove)] != toRemove {
					return false
				}
				csor.Delete()
''')],
     '''
package pin

import (
	"testing"

	"github.com/dave/dst/decorator"
)

func TestZZDemo(t *testing.T) {
	file, err := decorator.Parse(`package tools

import (
	_ "example.com/a"
	_ "example.com/a/b"
)
`)
	if err != nil {
		t.Fatal(err)
	}
	set := importSetFrom(file)
	set.Remove("example.com/a")
	if count := len(set.imports.Specs); count != 1 {
		t.Errorf("%d imports are left", count)
	}
}
''')
