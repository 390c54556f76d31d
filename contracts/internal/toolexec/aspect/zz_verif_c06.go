package aspect

import (
	"context"
	"strings"

	"github.com/DataDog/orchestrion/internal/goenv"
	"github.com/DataDog/orchestrion/internal/injector"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/config"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

func under(p string, root string) bool { return g.Or(p == root, strings.HasPrefix(p, root+"/")) }

// toolItself, tracer: the specification, written without reference to the table.
func toolItself(p string) bool {
	return g.And(under(p, "github.com/DataDog/orchestrion"), !under(p, "github.com/DataDog/orchestrion/runtime"))
}

func neverWoven(p string) bool {
	return g.Or(toolItself(p), p == "github.com/DataDog/go-tuf/client")
}

func tracerPkg(p string) bool {
	return g.Or(under(p, "gopkg.in/DataDog/dd-trace-go.v1"),
		g.And(under(p, "github.com/DataDog/dd-trace-go"),
			!under(p, "github.com/DataDog/dd-trace-go/internal/orchestrion/_integration"),
			!under(p, "github.com/DataDog/dd-trace-go/v2/internal/orchestrion/_integration")))
}

// C06_override: the behaviour of every import path.
func C06_override(path string) {
	g.Contract(FindBehaviorOverride)
	g.NoPanic()
	b, special := FindBehaviorOverride(path)
	g.Assert("never woven exactly where it must not be", g.Iff(special && b == NeverWeave, neverWoven(path)))
	g.Assert("tracer mode exactly in tracer packages", g.Iff(special && b == WeaveTracerInternal, tracerPkg(path)))
	g.Assert("no behaviour without a rule", g.Implies(!special, b == NoOverride))
	g.Cover("override")
}

// C06_boundary: a rule covers its path and, for trees, what is below.
func C06_boundary(sc specialCase, path string) {
	g.NoPanic()
	m := sc.matches(path)
	g.Assert("rule matches its own path", g.Implies(path == sc.path, m))
	g.Assert("tree rule matches below", g.Implies(sc.prefix && strings.HasPrefix(path, sc.path+"/"), m))
	g.Assert("exact rule matches nothing else", g.Implies(!sc.prefix && path != sc.path, !m))
	g.Assert("no match across a path element", g.Implies(m && path != sc.path, strings.HasPrefix(path, sc.path+"/")))
	g.Cover("boundary")
}

// C06_contract_inject: files are only ever handed to the injector for packages
// that may be woven, and in tracer packages only with tracer-internal aspects.
func C06_contract_inject(i *injector.Injector, ctx context.Context, files []string, aspects []*aspect.Aspect) (map[string]injector.InjectedFile, any, error) {
	g.Contract((*injector.Injector).InjectFiles)
	g.Assume(!neverWoven(i.ImportPath))
	g.Assume(g.Implies(tracerPkg(i.ImportPath), g.Forall(0, len(aspects), func(k int) bool { return aspects[k].TracerInternal })))
	g.Halt() // what happens after weaving is another matter
	i.InjectFiles(ctx, files, aspects)
	return nil, nil, nil
}

// Loading the configuration and the import configuration has no effect on what
// the callers below look at (assumed frames, no promise about the results).
func C06_frame_load(l *config.Loader, ctx context.Context) {
	g.Contract((*config.Loader).Load)
	l.Load(ctx)
}
func C06_frame_importcfg(ctx context.Context, f string) {
	g.Contract(importcfg.ParseFile)
	importcfg.ParseFile(ctx, f)
}
func C06_frame_gomod(dir string) { g.Contract(goenv.GOMOD); goenv.GOMOD(dir) }
func C06_frame_gofiles(c *proxy.CompileCommand) {
	g.Contract((*proxy.CompileCommand).GoFiles)
	c.GoFiles()
}
func C06_frame_client(ctx context.Context, dir string) {
	g.Contract(client.FromEnvironment)
	client.FromEnvironment(ctx, dir)
}

// C06_sym_compile: compiling a package respects its special case.
func C06_sym_compile(w Weaver, ctx context.Context, cmd *proxy.CompileCommand) {
	g.Assume(cmd != nil)
	_ = w.OnCompile(ctx, cmd)
	g.Cover("compile")
}
