package common

import (
	"errors"
	"sync"
	"sync/atomic"

	z "github.com/DataDog/orchestrion/internal/zzghost"
)

// cache15 is the representation invariant: a slot of its own for each key.
func cache15(c *Cache[int]) bool {
	return z.And(c.data != nil,
		z.AllKeys(c.data, func(a string) bool {
			return z.And(c.data[a] != nil, z.AllKeys(c.data, func(b string) bool { return z.Implies(a != b, c.data[a] != c.data[b]) }))
		}))
}

// C15_once: a value that was loaded is given again, and not loaded again.
func C15_once(data map[string]*slot[int], key string, v, w int, fails, fails2 bool) {
	c := NewCache[int](&CacheStats{})
	c.data = data
	z.Assume(cache15(&c))
	calls, calls2 := 0, 0
	had := z.And(z.Has(data, key), data[key].loaded)
	old := 0
	if had {
		old = data[key].value
	}
	oops := errors.New("oops")
	z.NoPanic()
	got, err := c.Load(key, func() (int, error) {
		calls++
		if fails {
			return 0, oops
		}
		return v, nil
	})
	z.Assert("a known value is not loaded", z.Implies(had, z.And(calls == 0, err == nil, got == old)))
	z.Assert("an unknown value is loaded once", z.Implies(!had, calls == 1))
	z.Assert("the loaded value is given", z.Implies(z.And(!had, !fails), z.And(err == nil, got == v)))
	z.Assert("the failure is given", z.Implies(z.And(!had, fails), err == oops))
	z.Assert("invariant", cache15(&c))
	again, err2 := c.Load(key, func() (int, error) {
		calls2++
		if fails2 {
			return 0, oops
		}
		return w, nil
	})
	z.Assert("the same value again", z.Implies(err == nil, z.And(calls2 == 0, err2 == nil, again == got)))
	z.Assert("a failure is not kept", z.Implies(err != nil, z.And(calls2 == 1, z.Iff(err2 == nil, !fails2), z.Implies(!fails2, again == w))))
	z.Cover("once")
}

// C15_apart: loading one key leaves the others alone.
func C15_apart(data map[string]*slot[int], key, other string, v int, fails bool) {
	c := NewCache[int](&CacheStats{})
	c.data = data
	z.Assume(cache15(&c))
	z.Assume(key != other)
	z.Assume(z.Has(data, other))
	loaded, value := data[other].loaded, data[other].value
	oops := errors.New("oops")
	z.NoPanic()
	_, _ = c.Load(key, func() (int, error) {
		if fails {
			return 0, oops
		}
		return v, nil
	})
	z.Assert("the other entry", z.And(z.Has(data, other), data[other].loaded == loaded, data[other].value == value))
	z.Cover("apart")
}

// ---------------------------------------------------------------- bounded part

// C15_run_concurrent: however many ask at once, the loader runs once per key
// until it succeeds, and everyone gets its value.
func C15_run_concurrent(n byte, keys byte, failures byte) {
	stats := &CacheStats{}
	c := NewCache[int](stats)
	nk, nf := int(keys%3)+1, int(failures%3)
	var running, tries, wins [3]atomic.Int32
	var wg sync.WaitGroup
	start := make(chan struct{})
	var bad atomic.Bool
	total := int(n%6) + 2
	for i := 0; i < total; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			k := i % nk
			v, err := c.Load(string(rune('a'+k)), func() (int, error) {
				if running[k].Add(1) != 1 {
					bad.Store(true)
				}
				defer running[k].Add(-1)
				if int(tries[k].Add(1)) <= nf {
					return 0, errors.New("oops")
				}
				wins[k].Add(1)
				return 100 + k, nil
			})
			if err == nil && v != 100+k {
				bad.Store(true)
			}
		}()
	}
	close(start)
	wg.Wait()
	z.Assert("one load at a time, and its value for everyone", !bad.Load())
	for k := 0; k < nk; k++ {
		z.Assert("loaded once", wins[k].Load() <= 1)
	}
	z.Assert("every request is counted", stats.Count() == uint64(total))
}
