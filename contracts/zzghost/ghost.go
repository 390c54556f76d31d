// Package zzghost is the specification vocabulary of the contracts in
// /verif/contracts.  The verification-condition generator gives these functions
// their logical meaning; the bodies below give the same meaning to concrete runs
// (replays of counterexamples and bounded stand-in checks).
package zzghost

import (
	"fmt"
	"reflect"
)

// Discard is panicked by Assume when a concrete input is outside the contract.
type Discard struct{}

// Failure is panicked by Assert when a concrete input breaks the contract.
type Failure struct{ Label string }

func (f Failure) Error() string { return "contract broken: " + f.Label }

// State of the current concrete run.
var (
	NoPanicOn bool
	Asserts   int
	Covered   = map[string]int{}
	Note      string
)

// Assume restricts the inputs (precondition).
func Assume(b bool) {
	if !b {
		panic(Discard{})
	}
}

// Fact unfolds the definition of a specification function (concrete runs check
// that it is true).
func Fact(b bool) {
	if !b {
		panic(Failure{"fact about a specification function"})
	}
}

// Halt ends the run; nothing after it matters.
func Halt() { panic(Discard{}) }

// Assert states an obligation (postcondition, lemma or intermediate claim).
func Assert(label string, b bool) {
	Asserts++
	if !b {
		panic(Failure{label})
	}
}

// Cover states that this point must be reachable (guards against vacuity).
func Cover(label string) { Covered[label]++ }

// NoPanic turns every bounds check, nil dereference, failed assertion and
// explicit panic reached from here on into an obligation.
func NoPanic() { NoPanicOn = true }

// MayPanic ends the scope of NoPanic.
func MayPanic() { NoPanicOn = false }

// Forall is the quantifier over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists is the quantifier over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// AllKeys quantifies over the keys of m.
func AllKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// SomeKey quantifies over the keys of m.
func SomeKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// And, Or, Implies and Iff evaluate both operands (no control flow).
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Inv offers a loop invariant; its parameters are matched by type to the
// variables of the loops reached from here on.
func Inv(f any) {}

// Contract makes the enclosing ghost function the contract of f: callers are
// checked against it instead of f's body.
func Contract(f any) {}

// Pure adds that f's results are a function of its arguments.
func Pure() {}

// Has reports whether k is a key of m.
func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// SnapMap and SnapSlice copy a value so that later writes do not affect it.
func SnapMap[K comparable, V any](m map[K]V) map[K]V {
	if m == nil {
		return nil
	}
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func SnapSlice[T any](s []T) []T { return append([]T(nil), s...) }

// SameMap reports whether two maps have the same keys and values.
func SameMap[K, V comparable](a, b map[K]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

// SameSlice reports whether two slices have the same elements.
func SameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Distinct reports whether no element occurs twice.
func Distinct[T comparable](s []T) bool {
	seen := map[T]bool{}
	for _, x := range s {
		if seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

// In reports whether x is an element of s.
func In[T comparable](x T, s []T) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// Notef records context for the replay file of a concrete failure.
func Notef(format string, args ...any) { Note = fmt.Sprintf(format, args...) }

// If is a conditional value.
func If[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// All quantifies over every value of a type (not computable: proofs only).
func All[T any](f func(x T) bool) bool { panic("zzghost.All is for proofs only") }

// Rel is a ghost relation on texts, known only by what is assumed of it.
func Rel(name string, xs ...string) bool { panic("zzghost.Rel is for proofs only") }

// Visited tells, in a loop invariant, whether the loop over a map has been at k.
func Visited[K comparable](k K) bool { panic("zzghost.Visited is for proofs only") }

// Fn is a ghost function on texts, known only by what is assumed of it.
func Fn(name string, xs ...string) string { panic("zzghost.Fn is for proofs only") }

// SameObj tells whether two maps or pointers are the same object (or both nil).
func SameObj[T any](a, b T) bool { return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer() }
