make('c01-generic-func', 'C01', 'a generic function declaration selected by name',
     'the file filter looks for the name followed by an opening parenthesis, so that files where the function has type parameters are skipped',
     'internal/injector/aspect/join',
     [('internal/injector/aspect/join/function.go', 'return ctx.FileContains(string(fo))', 'return ctx.FileContains(string(fo) + "(")')],
     '''
package join

import (
	"testing"

	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
)

func TestZZDemo(t *testing.T) {
	for _, src := range []string{"package p\\n\\nfunc target(x int) {}\\n", "package p\\n\\nfunc target[T any](x T) {}\\n", "package p\\n\\nfunc target (x int) {}\\n"} {
		if Function(Name("target")).FileMayMatch(&may.FileContext{FileContent: []byte(src), PackageName: "p"}) == may.NeverMatch {
			t.Errorf("filter hides %q", src)
		}
	}
}
''')
make('c02-dirty-hasher', 'C02', 'a fingerprint computation that fails, followed by another one that gets the same pooled hasher',
     'the hash is reset when a fingerprint is finished instead of when the hasher is returned, so that a failed computation leaves text behind for the next one',
     'internal/fingerprint',
     [('internal/fingerprint/fingerprint.go', '''func (h *Hasher) Close() {
	h.hash.Reset()
	pool.Put(h)''', '''func (h *Hasher) Close() {
	pool.Put(h)'''),
      ('internal/fingerprint/fingerprint.go', '''	return base64.URLEncoding.EncodeToString(h.hash.Sum(buf[:0]))''', '''	res := base64.URLEncoding.EncodeToString(h.hash.Sum(buf[:0]))
	h.hash.Reset()
	return res''')],
     '''
package fingerprint

import (
	"errors"
	"testing"
)

type failing struct{}

func (failing) Hash(h *Hasher) error {
	_ = String("left behind").Hash(h)
	return errors.New("failed")
}

func TestZZDemo(t *testing.T) {
	want, _ := Fingerprint(String("x"))
	for i := 0; i < 200; i++ {
		if _, err := Fingerprint(failing{}); err == nil {
			t.Fatal("no error")
		}
		if got, _ := Fingerprint(String("x")); got != want {
			t.Fatal("fingerprint changed after a failed one")
		}
	}
}
''')
make('c02-signature-flat', 'C02', 'two signatures with the same types, split differently between arguments and results',
     'arguments and results of a signature-contains option are put in one list, so that (a)->b and (a,b)-> have the same fingerprint',
     'internal/injector/aspect/join',
     [('internal/injector/aspect/join/function.go', '''		"signature-contains",
		fingerprint.List[typed.TypeName](fo.Arguments),
		fingerprint.List[typed.TypeName](fo.Results),
''', '''		"signature-contains",
		fingerprint.List[typed.TypeName](append(fo.Arguments[:len(fo.Arguments):len(fo.Arguments)], fo.Results...)),
''')],
     '''
package join

import (
	"testing"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/typed"
)

func TestZZDemo(t *testing.T) {
	a, b := typed.TypeName{Name: "a"}, typed.TypeName{Name: "b"}
	x, _ := fingerprint.Fingerprint(SignatureContains([]typed.TypeName{a, b}, nil))
	y, _ := fingerprint.Fingerprint(SignatureContains([]typed.TypeName{a}, []typed.TypeName{b}))
	if x == y {
		t.Fatal("same fingerprint")
	}
}
''')
make('c03-subtract', 'C03', 'order numbers so far apart that their difference overflows',
     'order numbers are compared by subtracting them',
     'internal/injector/aspect/advice',
     [('internal/injector/aspect/advice/order.go', '''	if n := cmp.Compare(a.order, b.order); n != 0 {''', '''	if n := a.order - b.order; n != 0 {''')],
     '''
package advice

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := &OrderedAdvice{order: math.MinInt, AspectID: "first"}, &OrderedAdvice{order: 1, AspectID: "last", Index: 1}
	l := []*OrderedAdvice{b, a}
	Sort(l)
	if l[0] != a {
		t.Fatal("not in order")
	}
}
''')
make('c03-fold', 'C03', 'two namespaces that differ in letter case only, with order numbers that contradict the namespaces',
     'namespaces are compared ignoring case',
     'internal/injector/aspect/advice',
     [('internal/injector/aspect/advice/order.go', '''strings.Compare(a.namespace, b.namespace)''', '''strings.Compare(strings.ToLower(a.namespace), strings.ToLower(b.namespace))''')],
     '''
package advice

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := &OrderedAdvice{namespace: "Obs", order: 5}, &OrderedAdvice{namespace: "obs", order: 1, Index: 1}
	l := []*OrderedAdvice{b, a}
	Sort(l)
	if l[0] != a {
		t.Fatal("not in order")
	}
}
''')
make('c04-first-wins', 'C04', 'two archives that record the same dependency with different kinds, visited in the unfortunate order',
     'when aggregating the records of an import configuration, a dependency seen before is skipped, losing the stronger kind',
     'internal/toolexec/aspect/linkdeps',
     [('internal/toolexec/aspect/linkdeps/linkdeps.go', '''			res.Add(dep, kind)
''', '''			if res.Contains(dep) {
				continue
			}
			res.Add(dep, kind)
''')],
     '''
package linkdeps

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	"github.com/blakesmith/ar"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	files := map[string]string{}
	for i, kind := range []DependencyKind{RelocationDependency, ImportDependency, RelocationDependency, RelocationDependency} {
		var ld LinkDeps
		ld.Add("x/y", kind)
		var buf, arc bytes.Buffer
		if err := ld.Write(&buf); err != nil {
			t.Fatal(err)
		}
		w := ar.NewWriter(&arc)
		_ = w.WriteGlobalHeader()
		_ = w.WriteHeader(&ar.Header{Name: Filename, Size: int64(buf.Len()), Mode: 0o644})
		_, _ = w.Write(buf.Bytes())
		p := filepath.Join(dir, fmt.Sprint(i))
		if err := os.WriteFile(p, arc.Bytes(), 0o644); err != nil {
			t.Fatal(err)
		}
		files[fmt.Sprint("p", i)] = p
	}
	for i := 0; i < 100; i++ {
		ld, err := FromImportConfig(context.Background(), &importcfg.ImportConfig{PackageFile: files})
		if err != nil {
			t.Fatal(err)
		}
		if ld.Kind("x/y") != ImportDependency {
			t.Fatal("the stronger kind was lost")
		}
	}
}
''')
make('c05-lookup-fallback', 'C05', 'a mapped import path that also has a package file of its own',
     'looking up a package tries the unmapped path before the import mapping',
     'internal/toolexec/importcfg',
     [('internal/toolexec/importcfg/lookup.go', '''	if p, mapped := r.ImportMap[lookup]; mapped {
''', '''	if p, mapped := r.ImportMap[lookup]; mapped && r.PackageFile[lookup] == "" {
''')],
     '''
package importcfg

import (
	"io"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for _, n := range []string{"a", "b"} {
		_ = os.WriteFile(filepath.Join(dir, n), []byte(n), 0o644)
	}
	cfg := ImportConfig{ImportMap: map[string]string{"x": "vendor/x"}, PackageFile: map[string]string{"x": filepath.Join(dir, "a"), "vendor/x": filepath.Join(dir, "b")}}
	rd, err := cfg.Lookup("x")
	if err != nil {
		t.Fatal(err)
	}
	defer rd.Close()
	if data, _ := io.ReadAll(rd); string(data) != "b" {
		t.Fatal("the mapping was ignored")
	}
}
''')
make('c13-key', 'C13', 'two packages and build IDs that read the same when put together',
     'the key of a compilation is the import path and build ID without a separator',
     'internal/jobserver/nbt',
     [('internal/jobserver/nbt/nbt.go', '''importPath + "\\x00" + buildID''', '''importPath + buildID''')],
     '''
package nbt

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := &service{dir: t.TempDir()}
	for _, r := range []StartRequest{{ImportPath: "a", BuildID: "bc"}, {ImportPath: "ab", BuildID: "c"}} {
		res, err := s.start(context.Background(), r)
		if err != nil || res.FinishToken == "" {
			t.Fatal("not told to build: ", r, err)
		}
	}
}
''')
make('c13-late-mark', 'C13', 'the same finish request delivered twice at the same time, or while the first is storing files',
     'a compilation is marked as done only once its outcome is stored, so that two finish requests both store an outcome',
     'internal/jobserver/nbt',
     [('internal/jobserver/nbt/nbt.go', '''	if !state.isDone.CompareAndSwap(false, true) {
''', '''	if state.isDone.Load() {
'''),
      ('internal/jobserver/nbt/nbt.go', '''	defer state.onDone()
''', '''	defer func() {
		if state.error == nil {
			state.isDone.Store(true)
		}
		state.onDone()
	}()
''')],
     '''
package nbt

import (
	"context"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s := &service{dir: t.TempDir()}
	ctx := context.Background()
	r, err := s.start(ctx, StartRequest{ImportPath: "a", BuildID: "b"})
	if err != nil {
		t.Fatal(err)
	}
	one, two := "one", "two"
	req := FinishRequest{ImportPath: "a", BuildID: "b", FinishToken: r.FinishToken, Error: &one}
	if _, err := s.finish(ctx, req); err != nil {
		t.Fatal(err)
	}
	req.Error = &two
	_, _ = s.finish(ctx, req)
	if _, err = s.start(ctx, StartRequest{ImportPath: "a", BuildID: "b"}); err == nil || err.Error() != "one" {
		t.Fatal("the outcome changed: ", err)
	}
}
''')
make('c14-remove-node', 'C14', 'two dependencies of one package, of which one is removed, then an addition that closes a cycle through the other',
     'removing a dependency forgets every dependency of the package',
     'internal/jobserver/common',
     [('internal/jobserver/common/graph.go', '''	delete(g.nodes[from], to)
	if len(g.nodes[from]) == 0 {
		delete(g.nodes, from)
	}
''', '''	if _, found := g.nodes[from][to]; found {
		delete(g.nodes, from)
	}
''')],
     '''
package common

import "testing"

func TestZZDemo(t *testing.T) {
	var g Graph
	_ = g.AddEdge("a", "b")
	_ = g.AddEdge("a", "c")
	g.RemoveEdge("a", "b")
	if g.AddEdge("c", "a") == nil {
		t.Fatal("cycle accepted")
	}
}
''')
make('c15-upgrade', 'C15', 'two requests for the same new key, both between the read lock and the write lock',
     'the second look-up after taking the write lock is gone, so that two requests racing for a new key get a slot each and compute twice',
     'internal/jobserver/common',
     [('internal/jobserver/common/cache.go', '''	// Check again, since we non-atomically upgraded to a write lock
	if s, ok := c.data[key]; ok {
		return s
	}
''', '')],
     '''
package common

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		c := NewCache[int](&CacheStats{})
		var calls atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, _ = c.Load("k", func() (int, error) { return int(calls.Add(1)), nil })
			}()
		}
		close(start)
		wg.Wait()
		if calls.Load() != 1 {
			t.Fatal(fmt.Sprintf("FAIL: computed %d times", calls.Load()))
		}
	}
}
''')
