package aspect

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/common"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
	"golang.org/x/tools/go/packages"
)

// A world is a scratch build: a module with its configuration, packages with
// their archives, and a job server that answers requests about them. Only the
// answers of "go list" are made up; everything else is the real code.
type world struct {
	dir     string
	stage   int
	config  map[string]string // package path -> directory with configuration
	resolve func(pkgs.ResolveRequest) (pkgs.ResolveResponse, error)
	asked   []string
}

var (
	theWorld   *world
	theWorldMu sync.Mutex
)

var startServer = sync.OnceValue(func() error {
	account := server.NewAccount("USERS")
	srv, err := server.NewServer(&server.Options{
		Host: "127.0.0.1", Port: server.RANDOM_PORT, Accounts: []*server.Account{account}, NoSigs: true, MaxPayload: server.MAX_PAYLOAD_MAX_SIZE,
		Users: []*server.User{{Username: client.Username, Password: client.NoPassword, Account: account}, {Username: "server", Account: account}},
	})
	if err != nil {
		return err
	}
	srv.Start()
	if !srv.ReadyForConnections(20e9) {
		return errors.New("the server does not start")
	}
	url := "nats://" + srv.Addr().String()
	conn, err := nats.Connect(url, nats.UserInfo("server", ""), nats.InProcessServer(srv))
	if err != nil {
		return err
	}
	ctx := context.Background()
	if _, err := nbt.Subscribe(ctx, conn); err != nil {
		return err
	}
	_, err = conn.Subscribe(pkgs.LoadRequest{}.Subject(), common.HandleRequest(ctx, func(_ context.Context, req pkgs.LoadRequest) (pkgs.LoadResponse, error) {
		theWorldMu.Lock()
		defer theWorldMu.Unlock()
		return theWorld.load(req)
	}))
	if err != nil {
		return err
	}
	_, err = conn.Subscribe(pkgs.ResolveRequest{}.Subject(), common.HandleRequest(ctx, func(_ context.Context, req pkgs.ResolveRequest) (pkgs.ResolveResponse, error) {
		theWorldMu.Lock()
		defer theWorldMu.Unlock()
		theWorld.asked = append(theWorld.asked, req.Pattern)
		return theWorld.resolve(req)
	}))
	if err != nil {
		return err
	}
	os.Setenv(client.EnvVarJobserverURL, url)
	return conn.Flush()
})

func newWorld() *world {
	if err := startServer(); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "world")
	if err != nil {
		panic(err)
	}
	w := &world{dir: dir, config: map[string]string{}, resolve: func(pkgs.ResolveRequest) (pkgs.ResolveResponse, error) { return nil, errors.New("nothing to resolve") }}
	theWorldMu.Lock()
	theWorld = w
	theWorldMu.Unlock()
	return w
}

func (w *world) close() { os.RemoveAll(w.dir) }

func (w *world) load(req pkgs.LoadRequest) (pkgs.LoadResponse, error) {
	var out pkgs.LoadResponse
	for _, p := range req.Patterns {
		d, found := w.config[p]
		if !found && filepath.IsAbs(p) { // the module that is being built
			d, found = w.config["."]
		}
		if !found {
			return nil, fmt.Errorf("no package %s", p)
		}
		out = append(out, &packages.Package{ID: p, PkgPath: p, Name: "p", GoFiles: []string{filepath.Join(d, "p.go")}})
	}
	return out, nil
}

// write creates a file.
func (w *world) write(name, text string) string {
	f := filepath.Join(w.dir, name)
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return f
}

// configure is the configuration of the module.
func (w *world) configure(yml string) {
	w.config["."] = filepath.Dir(w.write("conf/orchestrion.yml", yml))
}

// compileCommand is the command line of a compilation.
func (w *world) compileCommand(pkg string, lang string, importcfg map[string]string, files ...string) []string {
	w.stage++
	stage := fmt.Sprintf("work/b%03d", w.stage)
	cfg := "# import config\n"
	for _, p := range slices.Sorted(maps.Keys(importcfg)) {
		cfg += "packagefile " + p + "=" + importcfg[p] + "\n"
	}
	f := w.write(stage+"/importcfg", cfg)
	args := []string{"/go/pkg/tool/compile", "-o", filepath.Join(w.dir, stage, "_pkg_.a"), "-trimpath", w.dir + "=>", "-p", pkg}
	if lang != "" {
		args = append(args, "-lang="+lang)
	}
	args = append(args, "-complete", "-buildid", fmt.Sprintf("%s%d/x", filepath.Base(w.dir), w.stage), "-importcfg", f, "-pack")
	return append(args, files...)
}

// compile really runs a compile command.
func (w *world) compile(args []string) error {
	o, err := exec.Command("go", append([]string{"tool", "compile"}, args[1:]...)...).CombinedOutput()
	if err != nil {
		return fmt.Errorf("%w: %s", err, o)
	}
	return nil
}

// weave parses a command and runs the weaver on it.
func (w *world) weave(importPath string, args []string) (*proxy.CompileCommand, error) {
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, importPath, slices.Clone(args))
	if err != nil {
		return nil, fmt.Errorf("parse: %w", err)
	}
	c, _ := cmd.(*proxy.CompileCommand)
	if c == nil {
		return nil, errors.New("re-used")
	}
	if err := proxy.ProcessCommand(ctx, c, Weaver{ImportPath: importPath}.OnCompile); err != nil {
		return nil, err
	}
	return c, nil
}

func read(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return "<" + err.Error() + ">"
	}
	return string(bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n")))
}

// packageFiles are the entries of an import configuration.
func packageFiles(f string) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(read(f), "\n") {
		if p, ok := strings.CutPrefix(l, "packagefile "); ok {
			k, v, _ := strings.Cut(p, "=")
			out[k] = v
		}
	}
	return out
}
