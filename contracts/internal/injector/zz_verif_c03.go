package injector

import (
	"errors"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice"
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

type stubPoint struct{ yes bool }

func (stubPoint) ImpliesImported() []string                         { return nil }
func (stubPoint) PackageMayMatch(*may.PackageContext) may.MatchType { return may.Unknown }
func (stubPoint) FileMayMatch(*may.FileContext) may.MatchType       { return may.Unknown }
func (p stubPoint) Matches(context.AspectContext) bool              { return p.yes }
func (stubPoint) Hash(*fingerprint.Hasher) error                    { return nil }

// stubAdvice records that it was applied.
type stubAdvice struct {
	n       int
	changed bool
	fail    bool
	log     *[]int
}

func (a stubAdvice) Apply(context.AdviceContext) (bool, error) {
	*a.log = append(*a.log, a.n)
	if a.fail {
		return a.changed, errors.New("failed")
	}
	return a.changed, nil
}
func (stubAdvice) AddedImports() []string         { return nil }
func (stubAdvice) Hash(*fingerprint.Hasher) error { return nil }

type stubOrdered struct {
	stubAdvice
	ns string
	o  int
}

func (a stubOrdered) Order() int        { return a.o }
func (a stubOrdered) Namespace() string { return a.ns }

type plan03 struct {
	aspects []*aspect.Aspect
	log     *[]int
}

func gen_plan03(r *g.Rand) plan03 {
	p := plan03{log: &[]int{}}
	n := 0
	for k := r.Intn(5); k > 0; k-- {
		a := &aspect.Aspect{ID: g.Pick(r, "a", "b"), JoinPoint: stubPoint{r.Intn(4) > 0}}
		for j := r.Intn(4); j > 0; j-- {
			s := stubAdvice{n, r.Intn(2) == 0, r.Intn(12) == 0, p.log}
			n++
			if r.Intn(3) == 0 {
				a.Advice = append(a.Advice, s)
			} else {
				a.Advice = append(a.Advice, stubOrdered{s, g.Pick(r, "", "a", "b", "z", advice.DefaultNamespace), r.Intn(4) - 1})
			}
		}
		p.aspects = append(p.aspects, a)
	}
	return p
}

func key03(a advice.Advice) (string, int, stubAdvice) {
	if o, ok := a.(stubOrdered); ok {
		return o.ns, o.o, o.stubAdvice
	}
	return "\U0010ffff", 0, a.(stubAdvice)
}

// C03_run_node: all advice of all matching aspects is executed on the node, once
// each, in the documented order, up to the first failure.
func C03_run_node(p plan03) {
	*p.log = nil
	var want []advice.Advice
	for _, a := range p.aspects {
		if !a.JoinPoint.(stubPoint).yes {
			continue
		}
		for _, adv := range a.Advice {
			// insertion keeps equal ones in order of definition
			at := len(want)
			for at > 0 {
				n1, o1, _ := key03(want[at-1])
				n2, o2, _ := key03(adv)
				if n1 < n2 || n1 == n2 && o1 <= o2 {
					break
				}
				at--
			}
			want = append(want[:at], append([]advice.Advice{adv}, want[at:]...)...)
		}
	}
	var expect []int
	changed, failed := false, false
	for _, adv := range want {
		_, _, s := key03(adv)
		expect = append(expect, s.n)
		changed = changed || s.changed
		if s.fail {
			failed = true
			break
		}
	}
	got, err := injectNode(nil, p.aspects)
	g.Notef("executed %v, expected %v", *p.log, expect)
	g.Assert("executed in order", g.SameSlice(*p.log, expect))
	g.Assert("a failure is reported", (err != nil) == failed)
	g.Assert("a change is reported", failed || got == changed)
}

var _ join.Point = stubPoint{}
