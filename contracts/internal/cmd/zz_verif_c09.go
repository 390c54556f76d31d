package cmd

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/binpath"
	"github.com/DataDog/orchestrion/internal/goflags/quoted"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	g "github.com/DataDog/orchestrion/internal/zzghost"
	"github.com/urfave/cli/v2"
)

// wrapped is a command line given to orchestrion, and what the command does.
type wrapped struct {
	args   []string
	exit   int
	killed bool
	stdin  string
}

func (w wrapped) ZZShow() string {
	return fmt.Sprintf("%q exit: %d killed: %v", w.args, w.exit, w.killed)
}

func gen_outcome09(r *g.Rand, args []string) wrapped {
	w := wrapped{args: args, exit: g.Pick(r, 0, 0, 0, 1, 2, 3, 66, 127, 255), stdin: g.Pick(r, "", "text\n", "a\x00b")}
	if r.Intn(12) == 0 {
		w.killed, w.exit = true, 1
	}
	return w
}

func anyArg09(r *g.Rand) string {
	return g.Pick(r, "-a", "", " ", "x y", "'", "\"q\"", "-", "--", "\n", "$HOME", "-toolexec", "-C", "*", "é", "-tags=a b", "./...", "-race", "\\")
}

type goCommand struct{ wrapped }

func gen_goCommand(r *g.Rand) goCommand {
	var args []string
	switch r.Intn(8) {
	case 0:
		args = append(args, g.Pick(r, "-C", "--C"), g.Pick(r, ".", "sub", "sub/deeper"))
	case 1:
		args = append(args, g.Pick(r, "-C=", "--C=")+g.Pick(r, ".", "sub", "sub/deeper"))
	}
	args = append(args, g.Pick(r, "build", "clean", "get", "install", "list", "run", "test", "build", "vet", "version", "mod", "env", "-x", "help", "generate"))
	switch r.Intn(8) {
	case 0:
		args = append(args, g.Pick(r, "-C", "--C"), g.Pick(r, ".", "sub", "sub/deeper"))
	case 1:
		args = append(args, g.Pick(r, "-C=", "--C=")+g.Pick(r, ".", "sub", "sub/deeper"))
	}
	for range r.Intn(5) {
		args = append(args, anyArg09(r))
	}
	if r.Intn(20) == 0 {
		args = args[:r.Intn(2)]
	}
	return goCommand{gen_outcome09(r, args)}
}

type toolCommand struct{ wrapped }

func gen_toolCommand(r *g.Rand) toolCommand {
	args := []string{g.Pick(r, "asm", "cgo", "vet", "pack", "cover", "buildid", "compiler", "xlink", "linker")}
	for range r.Intn(6) {
		args = append(args, g.Pick(r, anyArg09(r), "-V=full", "-o", "/x/_pkg_.a", "a.go", "-p"))
	}
	return toolCommand{gen_outcome09(r, args)}
}

// world09 is a directory with commands that record how they are run.
var world09 = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "world09")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	script := "#!/bin/sh\nprintf '%s\\0' \"$(pwd)\" \"$@\" >\"$ZZ_OUT\"\nprintf '%s' \"$" + client.EnvVarJobserverURL + "\" >\"$ZZ_OUT.url\"\n" +
		"cat\n[ \"$ZZ_EXIT\" = kill ] && kill -9 $$\nexit $ZZ_EXIT\n"
	_ = os.MkdirAll(filepath.Join(dir, "bin"), 0o755)
	_ = os.MkdirAll(filepath.Join(dir, "wd/sub/deeper"), 0o755)
	for _, name := range []string{"go", "asm", "cgo", "vet", "pack", "cover", "buildid", "compiler", "xlink", "linker"} {
		if err := os.WriteFile(filepath.Join(dir, "bin", name), []byte(script), 0o755); err != nil {
			panic(err)
		}
	}
	return dir
})

// run09 runs a subcommand, and tells where and how it ran its command.
func (w wrapped) run09(c *cli.Command, args []string) (wd string, got []string, url string, out string, err error) {
	dir := world09()
	outFile := filepath.Join(dir, "out")
	for _, f := range []string{outFile, outFile + ".url"} {
		_ = os.Remove(f)
	}
	exit := strconv.Itoa(w.exit)
	if w.killed {
		exit = "kill"
	}
	env := map[string]string{
		"PATH": filepath.Join(dir, "bin") + ":" + os.Getenv("PATH"), "ZZ_OUT": outFile, "ZZ_EXIT": exit,
		"DD_ORCHESTRION_IS_GOMOD_VERSION": "true", client.EnvVarJobserverURL: "", "TOOLEXEC_IMPORTPATH": "", "PWD": "",
	}
	for k, v := range env {
		if old, ok := os.LookupEnv(k); ok {
			defer os.Setenv(k, old)
		} else {
			defer os.Unsetenv(k)
		}
		os.Setenv(k, v)
	}
	before, _ := os.Getwd()
	if err := os.Chdir(filepath.Join(dir, "wd")); err != nil {
		panic(err)
	}
	defer os.Chdir(before)
	in, out0 := filepath.Join(dir, "stdin"), filepath.Join(dir, "stdout")
	_ = os.WriteFile(in, []byte(w.stdin), 0o644)
	stdin, stdout := os.Stdin, os.Stdout
	defer func() { os.Stdin, os.Stdout = stdin, stdout }()
	os.Stdin, _ = os.Open(in)
	os.Stdout, _ = os.Create(out0)
	defer os.Stdin.Close()
	defer os.Stdout.Close()

	set := flag.NewFlagSet("orchestrion", flag.ContinueOnError)
	if err := set.Parse(append([]string{"--"}, args...)); err != nil {
		panic(err)
	}
	app := &cli.App{Writer: io.Discard, ErrWriter: io.Discard}
	ctx := cli.NewContext(app, set, nil)
	ctx.Context = context.Background()
	err = c.Action(ctx)

	text, _ := os.ReadFile(outFile)
	parts := strings.Split(strings.TrimSuffix(string(text), "\x00"), "\x00")
	u, _ := os.ReadFile(outFile + ".url")
	o, _ := os.ReadFile(out0)
	return parts[0], parts[1:], string(u), string(o), err
}

// outcome09: the exit status of the command is the one of orchestrion.
func (w wrapped) outcome09(out string, err error) {
	g.Notef("error: %v", err)
	if w.exit == 0 {
		g.Assert("success is success", err == nil)
	} else {
		var coder cli.ExitCoder
		ok := err != nil && errors.As(err, &coder)
		g.Assert("failure is failure", err != nil)
		g.Assert("the exit status is reported", w.killed || ok && coder.ExitCode() == w.exit)
		direct, isCoder := err.(cli.ExitCoder) // what orchestrion exits with
		g.Assert("the exit status is the one of the command", w.killed || isCoder && direct.ExitCode() == w.exit)
		g.Assert("a killed command fails", !w.killed || !isCoder || direct.ExitCode() != 0)
	}
	g.Assert("input and output are those of the command", out == w.stdin)
}

// C09_run_go: the go command is run as given, but for the tool that weaves.
func C09_run_go(w goCommand) {
	wd, got, url, out, err := w.run09(Go, w.args)

	want := slices.Clone(w.args)
	dir := filepath.Join(world09(), "wd")
	at := 0
	if len(want) > 0 && !strings.HasPrefix(want[0], "-") {
		at = 1
	}
	if at < len(want) {
		switch a := want[at]; {
		case (a == "-C" || a == "--C") && at+1 < len(want):
			dir = filepath.Join(dir, want[at+1])
			want = slices.Delete(want, at, at+2)
		case strings.HasPrefix(a, "-C=") || strings.HasPrefix(a, "--C="):
			dir = filepath.Join(dir, a[strings.Index(a, "=")+1:])
			want = slices.Delete(want, at, at+1)
		}
	}
	woven := len(want) > 0 && slices.Contains([]string{"build", "clean", "get", "install", "list", "run", "test"}, want[0])
	if _, err := os.Stat(dir); err != nil || at+1 < len(w.args) && w.args[at+1] == "" {
		return // there is no such directory
	}
	g.Notef("%q in %s instead of %q in %s", got, wd, want, dir)
	w.outcome09(out, err)
	g.Assert("in the directory asked for", wd == dir)
	if woven {
		g.Assert("code is woven", len(got) >= 3 && got[0] == want[0] && got[1] == "-toolexec")
		tool, err := quoted.Split(got[2])
		g.Assert("by this program", err == nil && slices.Equal(tool, []string{binpath.Orchestrion, "toolexec"}))
		g.Assert("with a job server", url != "")
		got, want = got[3:], want[1:]
	}
	g.Assert("the arguments are those given", slices.Equal(got, want))
}

// C09_run_tool: tools that weaving has nothing to do with run as they are.
func C09_run_tool(w toolCommand) {
	args := slices.Clone(w.args)
	args[0] = filepath.Join(world09(), "bin", args[0])
	wd, got, _, out, err := w.run09(Toolexec, args)
	g.Notef("%q in %s", got, wd)
	w.outcome09(out, err)
	g.Assert("in the same directory", wd == filepath.Join(world09(), "wd"))
	g.Assert("the arguments are those given", slices.Equal(got, args[1:]))
}
