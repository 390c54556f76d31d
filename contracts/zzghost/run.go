package zzghost

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Rand is the source of concrete inputs.
type Rand struct {
	*rand.Rand
	gens  map[reflect.Type]reflect.Value
	words []string
	depth int
}

// Words returns the string constants of the code under test.
func (r *Rand) Words() []string { return r.words }

// Pick returns one of xs.
func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Str returns a short string made of constants of the code under test.
func (r *Rand) Str() string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1, 2, 3:
		return r.word()
	case 4, 5:
		return r.word() + r.word()
	case 6:
		w := r.word()
		if len(w) > 0 {
			return w[:r.Intn(len(w)+1)]
		}
		return w
	case 7:
		w := r.word()
		if len(w) > 0 {
			return w[r.Intn(len(w)+1):]
		}
		return w
	}
	const al = "ab/.=-_@: \"\\,xyzC0"
	n := r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

func (r *Rand) word() string {
	if len(r.words) == 0 || r.Intn(8) == 0 {
		return Pick(r, "a", "b", "/", ".", "=", "-", "a/b", "x.y", "a=b", "\n", " ", "main")
	}
	return r.words[r.Intn(len(r.words))]
}

// Value returns a random value of type t.
func (r *Rand) Value(t reflect.Type) (reflect.Value, bool) {
	if g, ok := r.gens[t]; ok {
		return g.Call([]reflect.Value{reflect.ValueOf(r)})[0], true
	}
	r.depth++
	defer func() { r.depth-- }()
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32:
		if r.Intn(12) == 0 && t.Kind() == reflect.Int {
			v.SetInt(int64(Pick(r, math.MinInt, math.MaxInt, math.MinInt/2-1, math.MaxInt/2+1)))
			break
		}
		v.SetInt(int64(Pick(r, 0, 1, 2, 3, -1, 10, 7, r.Intn(1000))))
	case reflect.Int8, reflect.Int16:
		v.SetInt(int64(r.Intn(64)))
	case reflect.Uint8:
		v.SetUint(uint64(Pick(r, int('N'), int('Y'), int('?'), int('"'), int('\n'), int('a'), r.Intn(256))))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.Intn(10)))
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		if r.depth > 6 || r.Intn(6) == 0 {
			return v, true
		}
		n := r.Intn(5)
		v = reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			if i > 0 && r.Intn(6) == 0 {
				v = reflect.Append(v, v.Index(r.Intn(i)))
				continue
			}
			e, ok := r.Value(t.Elem())
			if !ok {
				return v, false
			}
			v = reflect.Append(v, e)
		}
	case reflect.Map:
		if r.depth > 6 || r.Intn(8) == 0 {
			return v, true
		}
		v = reflect.MakeMap(t)
		for n := r.Intn(5); n > 0; n-- {
			k, ok := r.Value(t.Key())
			if !ok {
				return v, false
			}
			e, ok := r.Value(t.Elem())
			if !ok {
				return v, false
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if r.depth > 6 || r.Intn(8) == 0 {
			return v, true
		}
		e, ok := r.Value(t.Elem())
		if !ok {
			return v, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(e)
		v = p
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			e, ok := r.Value(t.Elem())
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			ft := t.Field(i).Type
			if strings.HasPrefix(ft.PkgPath(), "sync") {
				continue
			}
			e, ok := r.Value(ft)
			if !ok {
				continue // left at its zero value
			}
			f := v.Field(i)
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(e)
		}
	case reflect.Interface:
		if t == reflect.TypeFor[error]() {
			if r.Intn(2) == 0 {
				return v, true
			}
			v.Set(reflect.ValueOf(fmt.Errorf("error %s", r.Str())))
			return v, true
		}
		return v, false
	default:
		return v, false
	}
	return v, true
}

// Outcome is the result of the concrete runs of one ghost function.
type Outcome struct {
	Ghost   string         `json:"ghost"`
	Runs    int            `json:"runs"`
	Kept    int            `json:"kept"`
	Asserts int            `json:"asserts"`
	Covered map[string]int `json:"covered"`
	Failed  string         `json:"failed,omitempty"`
	Input   string         `json:"input,omitempty"`
	Source  string         `json:"source,omitempty"`
	Note    string         `json:"note,omitempty"`
	Stack   string         `json:"stack,omitempty"`
	NoGen   bool           `json:"nogen,omitempty"`
	Seconds float64        `json:"seconds"`
	Hashes  []uint64       `json:"hashes,omitempty"`  // of distinct inputs of executed-only contracts
	Samples []string       `json:"samples,omitempty"` // some of them
	seen    map[uint64]bool
}

type config struct {
	Seed   int64                 `json:"seed"`
	Millis int                   `json:"millis"`
	Max    int                   `json:"max"`
	Words  map[string][]string   `json:"words"`
	Ghosts []string              `json:"ghosts"`
	Replay map[string][][]any    `json:"replay"`
	Known  map[string][]string   `json:"known"`
	Only   map[string]OnlyReplay `json:"only"`
	Out    string                `json:"out"`
}

// OnlyReplay names one recorded run.
type OnlyReplay struct {
	Seed int64 `json:"seed"`
	Iter int   `json:"iter"`
}

// Run executes ghost functions on concrete inputs as directed by ZZ_CONFIG.
func Run(ghosts map[string]any, gens []any) {
	data, err := os.ReadFile(os.Getenv("ZZ_CONFIG"))
	if err != nil {
		panic(err)
	}
	var c config
	if err := json.Unmarshal(data, &c); err != nil {
		panic(err)
	}
	gm := map[reflect.Type]reflect.Value{}
	for _, g := range gens {
		v := reflect.ValueOf(g)
		gm[v.Type().Out(0)] = v
	}
	names := make([]string, 0, len(ghosts))
	for n := range ghosts {
		if len(c.Ghosts) > 0 && !In(n, c.Ghosts) {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	out, err := os.OpenFile(c.Out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	go watch(enc)
	for _, n := range names {
		o := runOne(n, reflect.ValueOf(ghosts[n]), gm, &c)
		enc.Encode(o)
	}
}

// The watchdog: a run that does not end fails (not one on inputs from a solver
// model, which may be astronomically large).
var (
	runStart atomic.Int64
	running  struct {
		o        *Outcome
		describe func()
		source   string
	}
)

const patience = 45 * time.Second

func watch(enc *json.Encoder) {
	for {
		time.Sleep(time.Second)
		s := runStart.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < patience {
			continue
		}
		o := running.o
		if !strings.HasPrefix(running.source, "solver") {
			o.Failed = "terminates"
			o.Kept++
			running.describe()
		}
		o.Asserts = Asserts
		enc.Encode(o)
		os.Exit(3)
	}
}

func runOne(name string, fn reflect.Value, gens map[reflect.Type]reflect.Value, c *config) Outcome {
	o := Outcome{Ghost: name, Covered: map[string]int{}}
	start := time.Now()
	Covered = o.Covered
	Asserts = 0
	seed := c.Seed
	for i := range name {
		seed = seed*131 + int64(name[i])
	}
	for k, rp := range c.Replay[name] {
		args := make([]reflect.Value, fn.Type().NumIn())
		r := newRand(seed, 0, gens, c.Words[name])
		for i := range args {
			var raw any
			if i < len(rp) {
				raw = rp[i]
			}
			args[i] = r.decode(raw, fn.Type().In(i))
		}
		if try(fn, args, &o, fmt.Sprintf("solver model %d", k)) {
			o.Seconds = time.Since(start).Seconds()
			o.Asserts = Asserts
			return o
		}
	}
	if on, ok := c.Only[name]; ok {
		r := newRand(on.Seed, on.Iter, gens, c.Words[name])
		args, ok := r.args(fn)
		if ok {
			try(fn, args, &o, fmt.Sprintf("seed %d run %d", on.Seed, on.Iter))
		}
		o.Asserts = Asserts
		return o
	}
	limit := time.Duration(c.Millis) * time.Millisecond
	nopar := fn.Type().NumIn() == 0
	for it := 0; it < c.Max && (time.Since(start) < limit || it < 3); it++ {
		r := newRand(seed, it, gens, c.Words[name])
		args, ok := r.args(fn)
		if !ok {
			o.NoGen = true
			break
		}
		if try(fn, args, &o, fmt.Sprintf("seed %d run %d", seed, it)) {
			break
		}
		if nopar {
			break
		}
	}
	o.Asserts = Asserts
	o.Seconds = time.Since(start).Seconds()
	return o
}

func newRand(seed int64, it int, gens map[reflect.Type]reflect.Value, words []string) *Rand {
	return &Rand{Rand: rand.New(rand.NewSource(seed + int64(it)*1_000_003)), gens: gens, words: words}
}

func (r *Rand) args(fn reflect.Value) ([]reflect.Value, bool) {
	args := make([]reflect.Value, fn.Type().NumIn())
	for i := range args {
		v, ok := r.Value(fn.Type().In(i))
		if !ok {
			return nil, false
		}
		args[i] = v
	}
	return args, true
}

func try(fn reflect.Value, args []reflect.Value, o *Outcome, source string) (failed bool) {
	var ins []string
	describe := func() {
		for _, a := range args {
			ins = append(ins, Show(a, 0))
		}
		o.Input = strings.Join(ins, ", ")
		o.Source = source
		o.Note = Note
	}
	// what is only executed may not panic, unless it says so
	NoPanicOn = strings.Contains(o.Ghost, "_run_")
	Note = ""
	o.Runs++
	if NoPanicOn && o.Runs <= 20000 {
		defer func() {
			if kept := o.Kept; kept > len(o.Hashes) {
				o.distinct(args)
			}
		}()
	}
	running.o, running.describe, running.source = o, describe, source
	runStart.Store(time.Now().UnixNano())
	defer runStart.Store(0)
	defer func() {
		e := recover()
		switch e := e.(type) {
		case nil:
			o.Kept++
		case Discard:
		case Failure:
			o.Kept++
			failed = true
			o.Failed = e.Label
			describe()
		default:
			if NoPanicOn {
				failed = true
				o.Failed = fmt.Sprintf("no-panic: %v", e)
				o.Stack = string(debug.Stack())
				describe()
			}
		}
	}()
	fn.Call(args)
	return false
}

// distinct records an input that was not seen before.
func (o *Outcome) distinct(args []reflect.Value) {
	var ins []string
	for _, a := range args {
		ins = append(ins, Show(a, 0))
	}
	text := strings.Join(ins, ", ")
	h := fnv.New64a()
	h.Write([]byte(text))
	if o.seen == nil {
		o.seen = map[uint64]bool{}
	}
	if sum := h.Sum64(); !o.seen[sum] {
		o.seen[sum] = true
		o.Hashes = append(o.Hashes, sum)
		if len(o.Samples) < 2 {
			o.Samples = append(o.Samples, text[:min(len(text), 1500)])
		}
	}
}

// Show renders a value for a replay file.
func Show(v reflect.Value, d int) string {
	if d > 5 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	if v.Kind() == reflect.Struct || v.Kind() == reflect.Pointer && !v.IsNil() {
		if v.CanInterface() {
			if s, ok := v.Interface().(interface{ ZZShow() string }); ok {
				return s.ZZShow()
			}
		}
	}
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("[]byte(%q)", v.Bytes())
		}
		var xs []string
		for i := 0; i < v.Len(); i++ {
			xs = append(xs, Show(v.Index(i), d+1))
		}
		return "[" + strings.Join(xs, ", ") + "]"
	case reflect.Map:
		var xs []string
		for _, k := range v.MapKeys() {
			xs = append(xs, Show(k, d+1)+": "+Show(v.MapIndex(k), d+1))
		}
		sort.Strings(xs)
		return "map{" + strings.Join(xs, ", ") + "}"
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Show(v.Elem(), d+1)
	case reflect.Struct:
		var xs []string
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			xs = append(xs, v.Type().Field(i).Name+": "+Show(v.Field(i), d+1))
		}
		return v.Type().Name() + "{" + strings.Join(xs, ", ") + "}"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + "(" + Show(v.Elem(), d+1) + ")"
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	}
	return v.Type().String()
}

// decode builds a value from a solver model; parts the model does not describe
// are generated.
func (r *Rand) decode(raw any, t reflect.Type) (v reflect.Value) {
	v = reflect.New(t).Elem()
	if raw == nil {
		if x, ok := r.Value(t); ok {
			return x
		}
		return v
	}
	m, _ := raw.(map[string]any)
	l, isList := raw.([]any)
	switch t.Kind() {
	case reflect.Bool:
		b, _ := raw.(bool)
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f, _ := raw.(float64)
		v.SetInt(int64(f))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f, _ := raw.(float64)
		v.SetUint(uint64(f))
	case reflect.String:
		if isList {
			var b []byte
			for _, x := range l {
				f, _ := x.(float64)
				b = append(b, byte(f))
			}
			v.SetString(string(b))
		}
	case reflect.Slice:
		if isList {
			v = reflect.MakeSlice(t, 0, len(l))
			for _, x := range l {
				v = reflect.Append(v, r.decode(x, t.Elem()))
			}
		}
	case reflect.Map:
		if isList {
			v = reflect.MakeMap(t)
			for _, x := range l {
				kv, _ := x.([]any)
				if len(kv) == 2 {
					v.SetMapIndex(r.decode(kv[0], t.Key()), r.decode(kv[1], t.Elem()))
				}
			}
		}
	case reflect.Pointer:
		if m != nil {
			if p, ok := m["p"]; ok {
				n := reflect.New(t.Elem())
				n.Elem().Set(r.decode(p, t.Elem()))
				v.Set(n)
			}
		}
	case reflect.Struct:
		if isList {
			for i := 0; i < t.NumField() && i < len(l); i++ {
				ft := t.Field(i).Type
				if strings.HasPrefix(ft.PkgPath(), "sync") {
					continue
				}
				e := r.decode(l[i], ft)
				f := v.Field(i)
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(e)
			}
		}
	default:
		if m != nil && m["nil"] != nil {
			return v
		}
		if x, ok := r.Value(t); ok {
			return x
		}
	}
	return v
}

// Dump renders a value in full, following pointers and sorting maps, and
// leaving out the fields named in skip. Nil and empty lists look alike.
func Dump(v any, skip ...string) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), skip)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, skip []string) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), skip)
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		for i := range v.NumField() {
			n := v.Type().Field(i).Name
			if In(n, skip) {
				continue
			}
			b.WriteString(n + ":")
			dump(b, v.Field(i), skip)
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString(v.Type().String() + "[")
		for i := range v.Len() {
			dump(b, v.Index(i), skip)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var c strings.Builder
			dump(&c, k, skip)
			c.WriteString("=>")
			dump(&c, v.MapIndex(k), skip)
			es = append(es, c.String())
		}
		sort.Strings(es)
		b.WriteString(v.Type().String() + "map[" + strings.Join(es, ",") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%s%q", v.Type(), v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%s(%v)", v.Type(), v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		fmt.Fprintf(b, "%s(%d)", v.Type(), v.Int())
	default:
		fmt.Fprintf(b, "?%s", v.Type())
	}
}
