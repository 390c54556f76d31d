package nbt

import (
	"context"

	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C13_sym_key: the key tells packages and build IDs apart.
func C13_sym_key(p1, b1, p2, b2 string) {
	g.Assume(!strings.Contains(p1, "\x00"))
	g.Assume(!strings.Contains(p2, "\x00"))
	g.Assume(cacheKey(p1, b1) == cacheKey(p2, b2))
	k1, r1, _ := strings.Cut(cacheKey(p1, b1), "\x00")
	k2, r2, _ := strings.Cut(cacheKey(p2, b2), "\x00")
	g.Assert("package", g.Implies(k1 == k2, p1 == p2))
	g.Assert("build ID", g.Implies(r1 == r2, b1 == b2))
	g.Cover("key")
}

// C13_sym_first: the first request gets the token; the next ones never do.
func C13_sym_first(ctx context.Context, pkg, build, pkg2, build2 string) {
	s := &service{dir: "d"}
	g.Assume(pkg != "")
	g.Assume(build != "")
	g.Assume(ctx != nil)
	g.NoPanic()
	r1, err := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	g.Assert("the first is told to build", g.And(err == nil, r1 != nil, r1.FinishToken != "", len(r1.Files) == 0))
	r2, err := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	g.Assert("the second is not", err != nil || r2 != nil && r2.FinishToken == "")
	r3, err := s.start(ctx, StartRequest{ImportPath: pkg2, BuildID: build2})
	if pkg2 != "" && build2 != "" && cacheKey(pkg, build) != cacheKey(pkg2, build2) {
		g.Assert("another build is told to build", err == nil && r3 != nil && r3.FinishToken != "")
	}
	g.Cover("first")
}

// C13_sym_invalid: requests without a package or build are refused.
func C13_sym_invalid(ctx context.Context, pkg, build, token string) {
	s := &service{dir: "d"}
	g.Assume(ctx != nil)
	g.Assume(g.Or(pkg == "", build == ""))
	g.NoPanic()
	_, err := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	g.Assert("start", err != nil)
	_, err = s.finish(ctx, FinishRequest{ImportPath: pkg, BuildID: build, FinishToken: token})
	g.Assert("finish", err != nil)
	g.Cover("invalid")
}

// C13_sym_finish: only the holder of the token ends the build, and only once;
// everyone then gets its outcome.
func C13_sym_finish(ctx context.Context, pkg, build, wrong string, msg *string, late *string) {
	s := &service{dir: "d"}
	g.Assume(pkg != "")
	g.Assume(build != "")
	g.Assume(ctx != nil)
	g.Assume(msg != nil)
	g.NoPanic()
	r1, _ := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	raw, ok := s.state.Load(cacheKey(pkg, build))
	g.Assert("recorded", ok)
	st := raw.(*buildState)
	g.Assume(wrong != r1.FinishToken)
	_, err := s.finish(ctx, FinishRequest{ImportPath: pkg, BuildID: build, FinishToken: wrong, Error: late})
	g.Assert("a wrong token is refused", err != nil)
	g.Assert("and changes nothing", g.And(!st.isDone.Load(), st.error == nil, st.files == nil))
	_, err = s.finish(ctx, FinishRequest{ImportPath: pkg, BuildID: build, FinishToken: r1.FinishToken, Error: msg})
	g.Assert("accepted", g.And(err == nil, st.isDone.Load(), st.error != nil))
	was := st.error
	_, err = s.finish(ctx, FinishRequest{ImportPath: pkg, BuildID: build, FinishToken: r1.FinishToken, Error: late, Files: map[Label]string{"x": "y"}})
	g.Assert("a second time changes nothing", g.And(err == nil, st.error == was, st.files == nil))
	r2, err := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	g.Assert("the others get the failure", g.And(r2 == nil, err == was))
	g.Cover("finish")
}

// C13_sym_nothing: a build that reports neither files nor an error has failed.
func C13_sym_nothing(ctx context.Context, pkg, build string) {
	s := &service{dir: "d"}
	g.Assume(pkg != "")
	g.Assume(build != "")
	g.Assume(ctx != nil)
	g.NoPanic()
	r1, _ := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	_, err := s.finish(ctx, FinishRequest{ImportPath: pkg, BuildID: build, FinishToken: r1.FinishToken})
	g.Assert("refused", err != nil)
	r2, err := s.start(ctx, StartRequest{ImportPath: pkg, BuildID: build})
	g.Assert("the others fail too", g.And(r2 == nil, err != nil))
	g.Cover("nothing")
}

// ---------------------------------------------------------------- bounded part

type op13 struct {
	kind  int
	pkg   string
	build string
	how   int
}

func gen_op13(r *g.Rand) op13 {
	return op13{r.Intn(3), g.Pick(r, "a", "a/b", "a", "a\x00b"), g.Pick(r, "1", "2", "b1", "b\x002"), r.Intn(7)}
}

type answer13 struct {
	res *StartResponse
	err error
}

type build13 struct {
	token   string
	done    bool
	files   map[Label]string
	err     string
	waiting []chan answer13
}

func (b *build13) check(what string, a answer13) {
	if b.err != "" {
		g.Assert(what+": the failure", a.err != nil && strings.Contains(a.err.Error(), b.err))
		return
	}
	g.Assert(what+": no failure, no token", a.err == nil && a.res != nil && a.res.FinishToken == "")
	g.Assert(what+": every file", len(a.res.Files) == len(b.files))
	for l, c := range b.files {
		got, err := os.ReadFile(a.res.Files[l])
		g.Assert(what+": the content of the build", err == nil && string(got) == c)
	}
}

func await13(ch chan answer13) answer13 {
	select {
	case a := <-ch:
		return a
	case <-time.After(5 * time.Second):
		g.Assert("every request is answered", false)
	}
	return answer13{}
}

// C13_run_history: along any history, one builds and all others get its outcome.
func C13_run_history(ops, more, last []op13) {
	dir, err := os.MkdirTemp("", "c13")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	store := filepath.Join(dir, "store")
	_ = os.Mkdir(store, 0o755)
	s := &service{dir: store}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	builds := map[[2]string]*build13{}
	ask := func(o op13) chan answer13 {
		ch := make(chan answer13, 1)
		go func() {
			r, err := s.start(ctx, StartRequest{ImportPath: o.pkg, BuildID: o.build})
			ch <- answer13{r, err}
		}()
		return ch
	}
	for i, o := range append(append(append([]op13(nil), ops...), more...), last...) {
		if strings.Contains(o.pkg, "\x00") {
			o.pkg = "c" // not an import path
		}
		k := [2]string{o.pkg, o.build}
		b := builds[k]
		if o.kind != 2 {
			ch := ask(o)
			switch {
			case b == nil:
				a := await13(ch)
				g.Assert("the first is told to build", a.err == nil && a.res != nil && a.res.FinishToken != "" && len(a.res.Files) == 0)
				for _, x := range builds {
					g.Assert("with a token of its own", x.token != a.res.FinishToken)
				}
				builds[k] = &build13{token: a.res.FinishToken}
			case b.done:
				b.check("after the build", await13(ch))
			default:
				b.waiting = append(b.waiting, ch)
			}
			continue
		}
		req := FinishRequest{ImportPath: o.pkg, BuildID: o.build, FinishToken: "wrong"}
		if b == nil {
			_, err := s.finish(ctx, req)
			g.Assert("nothing was started", err != nil)
			continue
		}
		if o.how == 0 {
			_, err := s.finish(ctx, req)
			g.Assert("a wrong token is refused", err != nil)
			continue
		}
		req.FinishToken = b.token
		files := map[Label]string{}
		put := func(l Label, there bool) {
			p := filepath.Join(dir, fmt.Sprintf("out%d-%s", i, l))
			content := fmt.Sprintf("%s %s %d %s", o.pkg, o.build, i, l)
			if there {
				_ = os.WriteFile(p, []byte(content), 0o644)
			}
			if req.Files == nil {
				req.Files = map[Label]string{}
			}
			req.Files[l] = p
			files[l] = content
		}
		fails := ""
		switch o.how {
		case 1:
			fails = fmt.Sprintf("it broke %d", i)
			req.Error = &fails
		case 2:
			fails = errNoFilesNorError.Error()
		case 3:
			put(LabelArchive, true)
			put("missing", false)
			fails = "missing"
		case 4:
			put(LabelArchive, true)
		default:
			put(LabelArchive, true)
			put(LabelAsmhdr, true)
		}
		for _, ch := range b.waiting {
			select {
			case <-ch:
				g.Assert("nobody is answered before the build is done", b.done)
			default:
			}
		}
		was := b.done
		_, err := s.finish(ctx, req)
		for _, p := range req.Files {
			_ = os.Remove(p)
		}
		if was {
			g.Assert("a second time is accepted and changes nothing", err == nil)
			continue
		}
		g.Assert("outcome recorded", (err != nil) == (o.how == 2 || o.how == 3))
		b.done, b.err = true, fails
		if fails == "" {
			b.files = files
		}
		for _, ch := range b.waiting {
			b.check("who waited", await13(ch))
		}
		b.waiting = nil
	}
	for k, b := range builds {
		if !b.done {
			_, err := s.finish(ctx, FinishRequest{ImportPath: k[0], BuildID: k[1], FinishToken: b.token, Error: new(string)})
			g.Assert("accepted", err == nil)
			for _, ch := range b.waiting {
				g.Assert("who waited: the failure", await13(ch).err != nil)
			}
		}
	}
}

// C13_run_race: of many that ask at the same time, one builds.
func C13_run_race(n byte) {
	s := &service{dir: "unused"}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	total := int(n%7) + 2
	var wg sync.WaitGroup
	start := make(chan struct{})
	tokens := make(chan string, total)
	answers := make(chan answer13, total)
	for i := 0; i < total; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r, err := s.start(ctx, StartRequest{ImportPath: "a", BuildID: "b"})
			if err == nil && r.FinishToken != "" {
				tokens <- r.FinishToken
				return
			}
			answers <- answer13{r, err}
		}()
	}
	close(start)
	var token string
	select {
	case token = <-tokens:
	case <-time.After(5 * time.Second):
		g.Assert("someone is told to build", false)
	}
	runtime.Gosched()
	g.Assert("nobody is answered before the build is done", len(answers) == 0)
	broken := "it broke"
	_, err := s.finish(ctx, FinishRequest{ImportPath: "a", BuildID: "b", FinishToken: token, Error: &broken})
	g.Assert("accepted", err == nil)
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(5 * time.Second):
		g.Assert("every request is answered", false)
	}
	g.Assert("only one is told to build", len(tokens) == 0 && len(answers) == total-1)
	for len(answers) > 0 {
		a := <-answers
		g.Assert("the failure", a.err != nil && a.err.Error() == broken)
	}
}
