package common

import (
	"sync"

	z "github.com/DataDog/orchestrion/internal/zzghost"
)

func edge14(g *Graph, x, y string) bool { return z.And(z.Has(g.nodes, x), z.Has(g.nodes[x], y)) }

// reach14 is the reachability relation of the graph (one step or more).
func reach14(x, y string) bool { return z.Rel("reach", x, y) }

// next14 is the first node after x on some way from x to y.
func next14(x, y string) string { return z.Fn("next", x, y) }

// steps14: the relation is made of the edges: each edge is in it, one may go
// through an edge first, and there is no other way.
func steps14(g *Graph) bool {
	return z.And(
		z.All(func(x string) bool {
			return z.All(func(y string) bool { return z.Implies(edge14(g, x, y), reach14(x, y)) })
		}),
		z.All(func(x string) bool {
			return z.All(func(k string) bool {
				return z.All(func(y string) bool { return z.Implies(z.And(edge14(g, x, k), reach14(k, y)), reach14(x, y)) })
			})
		}),
		z.All(func(x string) bool {
			return z.All(func(y string) bool {
				return z.Implies(reach14(x, y), z.Or(edge14(g, x, y), z.And(edge14(g, x, next14(x, y)), reach14(next14(x, y), y))))
			})
		}))
}

// C14_sym_path: the contract of path.
func C14_sym_path(g *Graph, from, to string) {
	z.Contract((*Graph).path)
	z.Assume(g != nil)
	z.Assume(steps14(g))
	z.Inv(func(path []string) bool { return !z.Visited(to) })
	z.Inv(func(path []string) bool { return z.Implies(len(path) == 0, path == nil) })
	z.Inv(func(path []string) bool { return z.Implies(len(path) > 0, reach14(from, to)) })
	z.Inv(func(path []string) bool {
		return z.Implies(len(path) == 0, z.All(func(k string) bool { return z.Implies(z.Visited(k), !reach14(k, to)) }))
	})
	r := g.path(from, to)
	z.Assert("found when there is one", z.Implies(reach14(from, to), len(r) > 0))
	z.Assert("never empty but not nil", z.Implies(len(r) == 0, r == nil))
	z.Assert("nothing when there is none", z.Implies(!reach14(from, to), len(r) == 0))
	z.Cover("path")
}

// order14: the relation is a strict order, that is, the graph has no cycle.
func order14() bool {
	return z.And(
		z.All(func(x string) bool { return !reach14(x, x) }),
		z.All(func(x string) bool {
			return z.All(func(k string) bool {
				return z.All(func(y string) bool { return z.Implies(z.And(reach14(x, k), reach14(k, y)), reach14(x, y)) })
			})
		}))
}

// owned14: no two nodes share their set of edges.
func owned14(g *Graph) bool {
	return z.All(func(a string) bool {
		return z.All(func(b string) bool {
			return z.Implies(z.And(z.Has(g.nodes, a), z.Has(g.nodes, b), a != b, z.SameObj(g.nodes[a], g.nodes[b])), g.nodes[a] == nil)
		})
	})
}

// C14_sym_add: the edge is refused exactly when it closes a cycle; otherwise it,
// and nothing else, is added.
func C14_sym_add(g *Graph, from, to, x, y string) {
	z.Assume(g != nil)
	z.Assume(steps14(g))
	z.Assume(order14())
	z.Assume(owned14(g))
	had := edge14(g, x, y)
	z.NoPanic()
	err := g.AddEdge(from, to)
	z.Assert("refused exactly when it closes a cycle", z.Iff(err != nil, z.Or(from == to, reach14(to, from))))
	z.Assert("nothing but this edge is added", z.Iff(edge14(g, x, y), z.Or(had, z.And(err == nil, x == from, y == to))))
	z.Assert("edge sets stay separate", owned14(g))
	z.Cover("add")
}

// new14 is the relation once the edge is added.
func new14(from, to, x, y string) bool {
	return z.Or(reach14(x, y), z.And(z.Or(x == from, reach14(x, from)), z.Or(y == to, reach14(to, y))))
}

// C14_sym_acyclic: an edge that is not refused leaves the graph without cycle.
func C14_sym_acyclic(from, to, x, k, y string) {
	z.Assume(order14())
	z.Assume(!z.Or(from == to, reach14(to, from)))
	z.Assert("has the edge", new14(from, to, from, to))
	z.Assert("has the old edges", z.Implies(reach14(x, y), new14(from, to, x, y)))
	z.Assert("no cycle", !new14(from, to, x, x))
	z.Assert("transitive", z.Implies(z.And(new14(from, to, x, k), new14(from, to, k, y)), new14(from, to, x, y)))
	z.Cover("acyclic")
}

// C14_sym_remove: the edge, and nothing else, is removed.
func C14_sym_remove(g *Graph, from, to, x, y string) {
	z.Assume(g != nil)
	z.Assume(owned14(g))
	had := edge14(g, x, y)
	z.NoPanic()
	g.RemoveEdge(from, to)
	z.Assert("nothing but this edge is removed", z.Iff(edge14(g, x, y), z.And(had, z.Or(x != from, y != to))))
	z.Assert("edge sets stay separate", owned14(g))
	z.Cover("remove")
}

// ---------------------------------------------------------------- bounded part

type op14 struct {
	remove   bool
	from, to byte
}

func gen_op14(r *z.Rand) op14 { return op14{r.Intn(5) == 0, byte(r.Intn(6)), byte(r.Intn(6))} }

func leads14(e map[[2]byte]bool, from, to byte) bool {
	seen := map[byte]bool{}
	todo := []byte{from}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for p := range e {
			if p[0] != x {
				continue
			}
			if p[1] == to {
				return true
			}
			if !seen[p[1]] {
				seen[p[1]] = true
				todo = append(todo, p[1])
			}
		}
	}
	return false
}

// C14_run_history: along any history, an edge is refused exactly when it closes
// a cycle of the edges present.
func C14_run_history(ops, more []op14, last []op14) {
	name := func(b byte) string { return string(rune('a' + b)) }
	var g Graph
	e := map[[2]byte]bool{}
	for _, o := range append(append(append([]op14(nil), ops...), more...), last...) {
		if o.remove {
			g.RemoveEdge(name(o.from), name(o.to))
			delete(e, [2]byte{o.from, o.to})
			continue
		}
		bad := o.from == o.to || leads14(e, o.to, o.from)
		err := g.AddEdge(name(o.from), name(o.to))
		z.Notef("edges %v, adding %v: %v", e, o, err)
		z.Assert("refused exactly when it closes a cycle", (err != nil) == bad)
		if !bad {
			e[[2]byte{o.from, o.to}] = true
		}
	}
}

// C14_run_concurrent: of two requests that would close a cycle together, one is refused.
func C14_run_concurrent(chain byte) {
	n := int(chain%4) + 2
	for round := 0; round < 4; round++ {
		var g Graph
		var wg sync.WaitGroup
		errs := make([]error, n)
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = g.AddEdge(string(rune('a'+i)), string(rune('a'+(i+1)%n)))
			}()
		}
		close(start)
		wg.Wait()
		refused := 0
		for _, err := range errs {
			if err != nil {
				refused++
			}
		}
		z.Assert("exactly the one that closes the cycle is refused", refused == 1)
	}
}
