// Command front loads packages of /repo (current working tree, plus an overlay
// holding the ghost contract files of /verif/contracts) with go/packages,
// type-checks them, builds go/ssa, and dumps the SSA of every function of those
// packages as JSON for the verification-condition generator.
//
// Nothing is dropped from the functions dumped: every basic block and every
// instruction is exported.  Functions of packages that are not roots (standard
// library, third-party modules) are exported by signature only.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type dumper struct {
	prog    *ssa.Program
	typeIDs map[string]int
	typs    []map[string]any
	funcs   map[string]any
	queue   []*ssa.Function
	seen    map[*ssa.Function]bool
	extern  map[string]any
	methods map[string]map[string]string
	roots   map[*types.Package]bool
	globals map[string]any
}

func (d *dumper) typ(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	// distinguish local named types with the same name
	if n, ok := t.(*types.Named); ok && n.Obj().Parent() != nil && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
		key = fmt.Sprintf("%s@%d", key, n.Obj().Pos())
	}
	if id, ok := d.typeIDs[key]; ok {
		return id
	}
	id := len(d.typs)
	d.typeIDs[key] = id
	m := map[string]any{"s": key}
	d.typs = append(d.typs, m)
	if n, ok := t.(*types.Named); ok {
		m["named"] = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = u.Name()
		m["info"] = int(u.Info())
		m["kind"] = int(u.Kind())
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = d.typ(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = d.typ(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = d.typ(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = d.typ(u.Key())
		m["elem"] = d.typ(u.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["elem"] = d.typ(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []any{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, []any{f.Name(), d.typ(f.Type()), f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []any{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["k"] = "func"
		m["sig"] = d.sig(u)
	case *types.Tuple:
		m["k"] = "tuple"
		fs := []any{}
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, d.typ(u.At(i).Type()))
		}
		m["elems"] = fs
	default:
		m["k"] = "other"
	}
	return id
}

func (d *dumper) sig(s *types.Signature) map[string]any {
	ps := []any{}
	if s.Recv() != nil {
		ps = append(ps, []any{s.Recv().Name(), d.typ(s.Recv().Type())})
	}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, []any{s.Params().At(i).Name(), d.typ(s.Params().At(i).Type())})
	}
	rs := []any{}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, []any{s.Results().At(i).Name(), d.typ(s.Results().At(i).Type())})
	}
	return map[string]any{"params": ps, "results": rs, "variadic": s.Variadic(), "recv": s.Recv() != nil}
}

func constVal(c *ssa.Const) any {
	if c.Value == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		s := constant.StringVal(c.Value)
		bs := make([]int, len(s))
		for i := 0; i < len(s); i++ {
			bs[i] = int(s[i])
		}
		return map[string]any{"s": bs}
	case constant.Int:
		return map[string]any{"i": c.Value.ExactString()}
	default:
		return map[string]any{"f": c.Value.ExactString()}
	}
}

func (d *dumper) fname(f *ssa.Function) string {
	d.enqueue(f)
	n := f.String()
	return n
}

func (d *dumper) enqueue(f *ssa.Function) {
	if d.seen[f] {
		return
	}
	d.seen[f] = true
	d.queue = append(d.queue, f)
}

func (d *dumper) val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return []any{"c", d.typ(v.Type()), constVal(v)}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return []any{"p", i}
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				return []any{"v", i}
			}
		}
	case *ssa.Global:
		return []any{"g", v.String(), d.typ(v.Type())}
	case *ssa.Function:
		return []any{"f", d.fname(v), d.typ(v.Type())}
	case *ssa.Builtin:
		return []any{"b", v.Name()}
	}
	return []any{"r", v.Name()}
}

func (d *dumper) vals(vs []ssa.Value) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, d.val(v))
	}
	return out
}

func (d *dumper) call(c *ssa.CallCommon) map[string]any {
	m := map[string]any{}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["iface"] = d.typ(c.Value.Type())
		m["recv"] = d.val(c.Value)
	} else {
		m["fn"] = d.val(c.Value)
	}
	m["args"] = d.vals(c.Args)
	m["sig"] = d.sig(c.Signature())
	return m
}

func (d *dumper) instr(in ssa.Instruction) map[string]any {
	m := map[string]any{}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = d.typ(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		pos := d.prog.Fset.Position(p)
		m["pos"] = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = in.Heap
		m["c"] = in.Comment
	case *ssa.Phi:
		m["op"] = "phi"
		m["e"] = d.vals(in.Edges)
		m["c"] = in.Comment
	case *ssa.Call:
		m["op"] = "call"
		m["call"] = d.call(&in.Call)
	case *ssa.Defer:
		m["op"] = "defer"
		m["call"] = d.call(&in.Call)
	case *ssa.Go:
		m["op"] = "go"
		m["call"] = d.call(&in.Call)
	case *ssa.BinOp:
		m["op"] = "binop"
		m["o"] = in.Op.String()
		m["x"], m["y"] = d.val(in.X), d.val(in.Y)
		m["xt"] = d.typ(in.X.Type())
		m["yt"] = d.typ(in.Y.Type())
	case *ssa.UnOp:
		m["op"] = "unop"
		m["o"] = in.Op.String()
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
		m["ok"] = in.CommaOk
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.MultiConvert:
		m["op"] = "convert"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.ChangeInterface:
		m["op"] = "changeiface"
		m["x"] = d.val(in.X)
	case *ssa.SliceToArrayPointer:
		m["op"] = "slicetoarrayptr"
		m["x"] = d.val(in.X)
	case *ssa.MakeInterface:
		m["op"] = "mkiface"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
		d.noteMethods(in.X.Type())
	case *ssa.MakeClosure:
		m["op"] = "mkclosure"
		m["fn"] = d.fname(in.Fn.(*ssa.Function))
		m["b"] = d.vals(in.Bindings)
	case *ssa.MakeMap:
		m["op"] = "mkmap"
	case *ssa.MakeChan:
		m["op"] = "mkchan"
		m["size"] = d.val(in.Size)
	case *ssa.MakeSlice:
		m["op"] = "mkslice"
		m["len"], m["cap"] = d.val(in.Len), d.val(in.Cap)
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
		m["lo"], m["hi"], m["max"] = nil, nil, nil
		if in.Low != nil {
			m["lo"] = d.val(in.Low)
		}
		if in.High != nil {
			m["hi"] = d.val(in.High)
		}
		if in.Max != nil {
			m["max"] = d.val(in.Max)
		}
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
		m["f"] = in.Field
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = d.val(in.X)
		m["f"] = in.Field
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"], m["i"] = d.val(in.X), d.val(in.Index)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.Index:
		m["op"] = "index"
		m["x"], m["i"] = d.val(in.X), d.val(in.Index)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.Lookup:
		m["op"] = "lookup"
		m["x"], m["i"] = d.val(in.X), d.val(in.Index)
		m["xt"] = d.typ(in.X.Type())
		m["ok"] = in.CommaOk
	case *ssa.Select:
		m["op"] = "select"
		sts := []any{}
		for _, s := range in.States {
			st := map[string]any{"dir": int(s.Dir), "chan": d.val(s.Chan)}
			if s.Send != nil {
				st["send"] = d.val(s.Send)
			}
			sts = append(sts, st)
		}
		m["states"] = sts
		m["blocking"] = in.Blocking
	case *ssa.Range:
		m["op"] = "range"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
	case *ssa.Next:
		m["op"] = "next"
		m["x"] = d.val(in.Iter)
		m["str"] = in.IsString
	case *ssa.TypeAssert:
		m["op"] = "typeassert"
		m["x"] = d.val(in.X)
		m["xt"] = d.typ(in.X.Type())
		m["at"] = d.typ(in.AssertedType)
		m["ok"] = in.CommaOk
		d.noteMethods(in.AssertedType)
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = d.val(in.Tuple)
		m["i"] = in.Index
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.If:
		m["op"] = "if"
		m["x"] = d.val(in.Cond)
	case *ssa.Return:
		m["op"] = "return"
		m["r"] = d.vals(in.Results)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = d.val(in.X)
	case *ssa.Send:
		m["op"] = "send"
		m["x"], m["y"] = d.val(in.Chan), d.val(in.X)
	case *ssa.Store:
		m["op"] = "store"
		m["a"], m["x"] = d.val(in.Addr), d.val(in.Val)
		m["xt"] = d.typ(in.Val.Type())
	case *ssa.MapUpdate:
		m["op"] = "mapupdate"
		m["m"], m["key"], m["x"] = d.val(in.Map), d.val(in.Key), d.val(in.Value)
		m["xt"] = d.typ(in.Map.Type())
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = "unsupported"
		m["c"] = fmt.Sprintf("%T", in)
	}
	return m
}

// noteMethods records the method set of a concrete type so that interface
// method calls on values of that dynamic type can be resolved.
func (d *dumper) noteMethods(t types.Type) {
	t = types.Unalias(t)
	if types.IsInterface(t) {
		return
	}
	key := types.TypeString(t, nil)
	if _, ok := d.methods[key]; ok {
		return
	}
	ms := map[string]string{}
	d.methods[key] = ms
	d.typ(t)
	mset := d.prog.MethodSets.MethodSet(t)
	for i := 0; i < mset.Len(); i++ {
		sel := mset.At(i)
		fn := d.prog.MethodValue(sel)
		if fn == nil {
			continue
		}
		ms[sel.Obj().Name()] = d.fname(fn)
	}
}

func (d *dumper) function(f *ssa.Function) {
	name := f.String()
	m := map[string]any{"sig": d.sig(f.Signature), "syn": f.Synthetic}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), d.typ(p.Type())})
	}
	m["params"] = ps
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, []any{p.Name(), d.typ(p.Type())})
	}
	m["free"] = fv
	if f.Parent() != nil {
		m["parent"] = f.Parent().String()
	}
	if p := f.Pos(); p.IsValid() {
		pos := d.prog.Fset.Position(p)
		m["pos"] = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	}
	if len(f.Blocks) == 0 {
		if _, ok := d.funcs[name]; !ok {
			d.funcs[name] = m
		}
		return
	}
	bs := []any{}
	for _, b := range f.Blocks {
		bm := map[string]any{"c": b.Comment}
		succ, pred := []int{}, []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		bm["s"], bm["p"] = succ, pred
		ins := []any{}
		for _, in := range b.Instrs {
			if im := d.instr(in); im != nil {
				ins = append(ins, im)
			}
		}
		bm["i"] = ins
		bs = append(bs, bm)
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	d.funcs[name] = m
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	overlay := flag.String("overlay", "", "go overlay JSON")
	out := flag.String("o", "", "output")
	deps := flag.String("deps", "", "dependencies whose functions are exported too, where they are called")
	flag.Parse()

	ov := map[string][]byte{}
	if *overlay != "" {
		data, err := os.ReadFile(*overlay)
		if err != nil {
			fatal(err)
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(data, &o); err != nil {
			fatal(err)
		}
		for k, v := range o.Replace {
			if strings.HasSuffix(k, "_test.go") {
				continue
			}
			b, err := os.ReadFile(v)
			if err != nil {
				fatal(err)
			}
			ov[k] = b
		}
	}
	cfg := &packages.Config{
		Dir:     *dir,
		Overlay: ov,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
	}
	isDep := map[string]bool{}
	patterns := flag.Args()
	for _, p := range strings.Split(*deps, ",") {
		if p != "" {
			isDep[p] = true
			patterns = append(patterns, p)
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatal(err)
	}
	type perr struct {
		Pkg string `json:"pkg"`
		Pos string `json:"pos"`
		Msg string `json:"msg"`
	}
	var errs []perr
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, perr{p.PkgPath, e.Pos, e.Msg})
		}
	}
	result := map[string]any{"errors": errs}
	if len(errs) == 0 {
		prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
		for _, sp := range spkgs {
			if sp != nil {
				sp.Build()
			}
		}
		d := &dumper{prog: prog, typeIDs: map[string]int{}, funcs: map[string]any{}, seen: map[*ssa.Function]bool{}, methods: map[string]map[string]string{}, globals: map[string]any{}}
		consts := map[string]any{}
		for _, sp := range spkgs {
			if sp == nil || isDep[sp.Pkg.Path()] {
				continue
			}
			names := []string{}
			for n := range sp.Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				switch m := sp.Members[n].(type) {
				case *ssa.Function:
					d.enqueue(m)
				case *ssa.Global:
					d.globals[m.String()] = d.typ(m.Type())
				case *ssa.NamedConst:
					consts[sp.Pkg.Path()+"."+n] = []any{"c", d.typ(m.Value.Type()), constVal(m.Value)}
				case *ssa.Type:
					t := m.Type()
					if named, ok := types.Unalias(t).(*types.Named); ok && named.TypeParams().Len() > 0 {
						continue
					}
					d.noteMethods(t)
					if !types.IsInterface(t) {
						d.noteMethods(types.NewPointer(t))
					} else {
						d.typ(t)
					}
				}
			}
		}
		for len(d.queue) > 0 {
			f := d.queue[0]
			d.queue = d.queue[1:]
			d.function(f)
		}
		result["types"] = d.typs
		result["funcs"] = d.funcs
		result["methods"] = d.methods
		result["globals"] = d.globals
		result["consts"] = consts
		rel := []string{}
		for _, p := range pkgs {
			if isDep[p.PkgPath] {
				continue
			}
			for _, f := range p.CompiledGoFiles {
				if r, err := filepath.Rel(*dir, f); err == nil {
					rel = append(rel, r)
				}
			}
		}
		result["files"] = rel
	}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fatal(err)
		}
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(result); err != nil {
		fatal(err)
	}
	if err := w.Close(); err != nil {
		fatal(err)
	}
	_ = token.NoPos
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "front:", err)
	os.Exit(3)
}
