make('c06-external-test', 'C06', 'an external test package (import path ending in _test) of a package that has an exact-path rule',
     'a rule for a path is also applied to the path followed by _test, which merely shares the text prefix: that package is no longer woven',
     'internal/toolexec/aspect',
     [('internal/toolexec/aspect/specialcase.go', '''	return importPath == sc.path ||''', '''	return strings.TrimSuffix(importPath, "_test") == sc.path ||''')],
     '''
package aspect

import "testing"

func TestZZDemo(t *testing.T) {
	if b, ok := FindBehaviorOverride("github.com/DataDog/go-tuf/client_test"); ok {
		t.Errorf("client_test is treated as client: %v", b)
	}
	if b, ok := FindBehaviorOverride("github.com/DataDog/go-tuf/client"); !ok || b != NeverWeave {
		t.Errorf("client: %v %v", b, ok)
	}
}
''')
make('c07-last-comment', 'C07', 'an ignore directive with another comment between it and the code',
     'only the comment right before the code is looked at, so that a directive followed by another comment is not honoured',
     'internal/injector',
     [('internal/injector/labels.go', '''	for _, cmt := range node.Decorations().Start.All() {
''', '''	comments := node.Decorations().Start.All()
	for _, cmt := range comments[max(0, len(comments)-1):] {
''')],
     '''
package injector

import (
	"context"
	"testing"

	"github.com/dave/dst"
)

func TestZZDemo(t *testing.T) {
	for _, c := range [][]string{{"//orchestrion:ignore"}, {"// f is a function", "//orchestrion:ignore"}, {"//orchestrion:ignore", "//nolint:all"}, {"//dd:ignore", "// f is a function"}} {
		n := &dst.FuncDecl{Decs: dst.FuncDeclDecorations{NodeDecs: dst.NodeDecs{Start: c}}}
		if !isIgnored(context.Background(), n) {
			t.Errorf("%q is not ignored", c)
		}
	}
}
''')
make('c10-first-position', 'C10', 'a command line on which the value of a flag is also the path of a source file',
     'positions of arguments are recorded for their first occurrence, so that the value of the flag is replaced instead of the source file',
     'internal/toolexec/proxy',
     [('internal/toolexec/proxy/proxy.go', '''		cmd.paramPos[v] = pos + 1
''', '''		if _, seen := cmd.paramPos[v]; !seen {
			cmd.paramPos[v] = pos + 1
		}
''')],
     '''
package proxy

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	cmd := NewCommand([]string{"compile", "-p", "main.go", "-o", "out.a", "main.go"})
	if err := cmd.ReplaceParam("main.go", "/w/main.go"); err != nil {
		t.Fatal(err)
	}
	if got := strings.Join(cmd.args, " "); got != "compile -p main.go -o out.a /w/main.go" {
		t.Errorf("got %s", got)
	}
}
''')
make('c11-text-compare', 'C11', 'two pieces of advice that require language levels with a different number of digits, such as go1.9 and go1.18',
     'the highest of the required levels is found by comparing text, so that go1.9 wins over go1.18 and the woven file does not compile',
     'internal/injector/aspect/context',
     [('internal/injector/aspect/context/golang.go', '''	if Compare(*g, other) >= 0 {
		return
	}
''', '''	if g.label >= other.label {
		return
	}
''')],
     '''
package context

import "testing"

func TestZZDemo(t *testing.T) {
	for _, order := range [][]string{{"go1.9", "go1.18"}, {"go1.18", "go1.9"}, {"go1.17", "go1.18"}} {
		var g GoLangVersion
		for _, v := range order {
			g.SetAtLeast(MustParseGoLangVersion(v))
		}
		if g.String() != "go1.18" {
			t.Errorf("%v: got %s", order, g)
		}
	}
}
''')
make('c12-foreign-variant', 'C12', 'a link-time dependency that is resolved to an archive built for a test, while an ordinary program is linked',
     'archives built for some test are only refused when a test is being built, so that a program may contain one',
     'internal/toolexec/aspect',
     [('internal/toolexec/aspect/resolve.go', '''		if archive.ForTest != "" && archive.ForTest != testVariantFor {''', '''		if testVariantFor != "" && archive.ForTest != "" && archive.ForTest != testVariantFor {''')],
     '''
package aspect

import (
	"testing"

	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
)

func TestZZDemo(t *testing.T) {
	for _, target := range []string{"", "example.com/subject"} {
		reg := importcfg.ImportConfig{PackageFile: map[string]string{"example.com/p": "/p.a"}}
		_, err := mergeResolvedArchives(&reg, pkgs.ResolveResponse{"example.com/p": {ExportFile: "/variant.a", ForTest: "example.com/other"}}, target)
		if err == nil {
			t.Errorf("target %q: an archive built for another test was accepted: %v", target, reg.PackageFile)
		}
	}
}
''')
make('c17-trailing-globstar', 'C17', 'a filter with two `**` at its end (such as `svc**/**`) and a package that stops where they start',
     '`**` no longer stands for zero segments when another pattern segment follows it and the path is used up',
     'internal/injector/aspect/join',
     [('internal/injector/aspect/join/package.go', '''			for pathIdx <= len(pathSegments) {
''', '''			for pathIdx < len(pathSegments) {
''')],
     '''
package join

import "testing"

func TestZZDemo(t *testing.T) {
	for pattern, p := range map[string]string{"svc**/**": "svc1", "a.com/**/**": "a.com", "a.com/svc**": "a.com/svc", "a.com/**/x": "a.com/x"} {
		if !PackageFilter(false, pattern).matchesPattern(p) {
			t.Errorf("%s does not match %s", pattern, p)
		}
	}
}
''')
