package advice

import (
	"github.com/DataDog/orchestrion/internal/injector/aspect/context"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// before: a must be executed before b.
func before(a, b *OrderedAdvice) bool {
	return g.Or(
		a.namespace < b.namespace,
		g.And(a.namespace == b.namespace, a.order < b.order),
		g.And(a.namespace == b.namespace, a.order == b.order, a.Index < b.Index))
}

// C03_sorted: the list is sorted, and is made of the same elements.
func C03_sorted(l []*OrderedAdvice) {
	g.Assume(g.Forall(0, len(l), func(i int) bool { return l[i] != nil }))
	g.NoPanic()
	Sort(l)
	g.Assert("sorted", g.Forall(1, len(l), func(i int) bool { return !before(l[i], l[i-1]) }))
	g.Cover("sorted")
}

// C03_kept: sorting neither loses nor adds nor duplicates advice.
func C03_kept(l []*OrderedAdvice, x *OrderedAdvice) {
	g.Assume(g.Forall(0, len(l), func(i int) bool { return l[i] != nil }))
	had := g.In(x, l)
	n := len(l)
	g.NoPanic()
	Sort(l)
	g.Assert("same length", len(l) == n)
	g.Assert("same elements", g.In(x, l) == had)
	g.Cover("kept")
}

// C03_fields: sorting does not change the advice itself.
func C03_fields(l []*OrderedAdvice, a *OrderedAdvice) {
	g.Assume(a != nil)
	g.Assume(g.Forall(0, len(l), func(i int) bool { return l[i] != nil }))
	ns, o, ix, id := a.namespace, a.order, a.Index, a.AspectID
	g.NoPanic()
	Sort(l)
	g.Assert("fields", g.And(a.namespace == ns, a.order == o, a.Index == ix, a.AspectID == id))
	g.Cover("fields")
}

// C03_total: of two pieces of advice with different positions, exactly one
// comes first, whichever way they are compared; the order is transitive.
func C03_total(a, b, c *OrderedAdvice) {
	g.Assume(a != nil)
	g.Assume(b != nil)
	g.Assume(c != nil)
	g.NoPanic()
	ab, ba, bc, ac := adviceSorter(a, b), adviceSorter(b, a), adviceSorter(b, c), adviceSorter(a, c)
	g.Assert("first", g.Iff(ab < 0, before(a, b)))
	g.Assert("last", g.Iff(ab > 0, before(b, a)))
	g.Assert("antisymmetric", g.Iff(ab < 0, ba > 0))
	g.Assert("transitive", g.Implies(g.And(ab <= 0, bc <= 0), ac <= 0))
	g.Assert("total", g.Implies(g.And(a.namespace == b.namespace, a.order == b.order, a.Index != b.Index), ab != 0))
	g.Cover("total")
}

type plainAdvice struct{}

func (plainAdvice) Apply(context.AdviceContext) (bool, error) { return false, nil }
func (plainAdvice) AddedImports() []string                    { return nil }
func (plainAdvice) Hash(*fingerprint.Hasher) error            { return nil }

type orderable struct {
	plainAdvice
	ns string
	o  int
}

func (a orderable) Order() int        { return a.o }
func (a orderable) Namespace() string { return a.ns }

// C03_defaults: what the advice asks for is kept, and the defaults otherwise.
func C03_defaults(id string, ix int, ns string, o int) {
	g.NoPanic()
	a := NewOrderedAdvice(id, plainAdvice{}, ix)
	g.Assert("default namespace", a.namespace == "\U0010ffff")
	g.Assert("default order", a.order == 0)
	g.Assert("identity", g.And(a.AspectID == id, a.Index == ix, a.Advice != nil))
	b := NewOrderedAdvice(id, orderable{ns: ns, o: o}, ix)
	g.Assert("namespace", b.namespace == ns)
	g.Assert("order", b.order == o)
	g.Assert("identity", g.And(b.AspectID == id, b.Index == ix, b.Advice != nil))
	g.Cover("defaults")
}

// C03_prepend: the statements advice asks for what it was configured with.
func C03_prepend(ns string, o int) {
	g.NoPanic()
	a := PrependStmtsWithOrder(nil, ns, o)
	g.Assert("configured", g.And(a.Namespace() == ns, a.Order() == o))
	b := PrependStmts(nil)
	g.Assert("default", g.And(b.Namespace() == "\U0010ffff", b.Order() == 0))
	g.Cover("prepend")
}
