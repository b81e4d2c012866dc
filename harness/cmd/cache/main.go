// Conformance driver for package cache (C09, C10).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/cache"
)

type sys[K comparable] struct {
	mk    func(int) K
	un    func(K) int
	inst  map[int]lru[K]
	fresh func(n int) lru[K]
	rec   map[int]*[]any // what the callback of a cache recorded during this step
	eachs int
}

// lru is a cache with numbers as values.
type lru[K any] interface {
	h.OMap[K]
	Resize(int)
	Capacity() int
	SetEvictCallback(func(K, int))
}

// boxed has values of interface type.
type boxed[K comparable] struct {
	h.AnyMap[K]
	*cache.Cache[K, any]
}

func (c boxed[K]) Put(k K, v int)           { c.AnyMap.Put(k, v) }
func (c boxed[K]) Get(k K) (int, bool)      { return c.AnyMap.Get(k) }
func (c boxed[K]) Remove(k K)               { c.AnyMap.Remove(k) }
func (c boxed[K]) Size() int                { return c.AnyMap.Size() }
func (c boxed[K]) Each(fn func(k K, v int)) { c.AnyMap.Each(fn) }
func (c boxed[K]) SetEvictCallback(fn func(k K, v int)) {
	if fn == nil {
		c.Cache.SetEvictCallback(nil)
		return
	}
	c.Cache.SetEvictCallback(func(k K, v any) { fn(k, h.UnAny(v, c.Null)) })
}

func plain[K comparable](n int) lru[K] { return cache.New[K, int](n) }

func (s *sys[K]) setcb(i int, cb string, ck int) {
	c := s.inst[i]
	rec := s.rec[i]
	look := func(e []any, k K) []any {
		v, ok := c.Get(k)
		return append(e, v, h.B(ok))
	}
	if cb == "none" {
		c.SetEvictCallback(nil)
		return
	}
	c.SetEvictCallback(func(k K, v int) {
		e := h.L(s.un(k), v)
		switch cb {
		case "get":
			e = look(e, s.mk(ck))
		case "own":
			e = look(e, k)
		case "rm":
			c.Remove(s.mk(ck))
		case "rmown":
			c.Remove(k)
		}
		if len(*rec) < 1<<16 {
			*rec = append(*rec, e)
		}
	})
}

// Probe reads something; a lookup would be a use.
func (s *sys[K]) Probe(r *rand.Rand) {
	c := s.inst[1]
	switch r.Intn(3) {
	case 0:
		c.Size()
	case 1:
		c.Capacity()
	default:
		h.Iterated(r, func(f func()) { c.Each(func(K, int) { f() }) })
	}
}

func (s *sys[K]) Do(o h.Obj) any {
	i := o.I("i")
	c := s.inst[i]
	if r := s.rec[i]; r != nil {
		*r = []any{}
	}
	switch op := o.S("op"); op {
	case "new":
		s.inst[i] = s.fresh(o.I("n"))
		s.rec[i] = &[]any{}
	case "get":
		for x := h.Times(o); x > 0; x-- {
			c.Get(s.mk(o.I("k")))
		}
		v, ok := c.Get(s.mk(o.I("k")))
		return h.L(v, h.B(ok))
	case "getn":
		r := []any{}
		for x := 0; x < o.I("n"); x++ {
			if v, ok := c.Get(s.mk(o.I("k") + x)); ok {
				r = append(r, h.L(o.I("k")+x, v))
			}
		}
		return r
	case "putn":
		for x := 0; x < o.I("n"); x++ {
			c.Put(s.mk(o.I("k")+x), o.I("v")+x)
		}
		return *s.rec[i]
	case "put":
		for x := h.Times(o); x > 0; x-- {
			c.Put(s.mk(o.I("k")), o.I("v"))
		}
		c.Put(s.mk(o.I("k")), o.I("v"))
		return *s.rec[i]
	case "remove":
		k := s.mk(o.I("k"))
		for x := h.Times(o); x > 0; x-- {
			if _, ok := c.Get(k); ok { // there is room for it again
				c.Remove(k)
				c.Put(k, -x)
			} else {
				c.Remove(k)
			}
		}
		c.Remove(s.mk(o.I("k")))
		return *s.rec[i]
	case "resize":
		c.Resize(o.I("n"))
		return *s.rec[i]
	case "setcb":
		s.setcb(i, o.S("cb"), o.I("ck"))
	case "size":
		return h.L(c.Size())
	case "cap":
		return h.L(c.Capacity())
	case "each":
		r := []any{}
		s.eachs++
		n := h.Nest{}
		c.Each(func(k K, v int) {
			if len(r) < 1<<12 {
				r = append(r, h.L(s.un(k), v))
			}
			if s.eachs%2 == 1 && n.Now() {
				x, first := 0, false
				c.Each(func(l K, w int) {
					if x++; x == n.At() {
						first = l == k && w == v
					}
				})
				n.Count(x)
				n.Check(first && c.Size() == x && c.Capacity() >= x)
			}
		})
		if s.eachs%2 == 1 {
			return n.Result(r)
		}
		return r
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	cbs := []string{"none", "log", "log", "log", "get", "rm", "own", "rmown"}
	for hist := 0; hist < 16*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		ni := 1 + r.Intn(2)
		u := r.Pick(2, 4, 8, 30, 100)
		cap := func() int { return r.Pick(0, 1, 2, 3, u/2, u-1, u, u+5, 8, 16, 64) }
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "new", "i": i, "n": cap()})
			r.Do(h.Obj{"op": "setcb", "i": i, "cb": cbs[r.Intn(len(cbs))], "ck": r.Intn(u)})
		}
		v := 0
		few, left, at := false, 0, 0
		pause := r.Pick(1, 1, 5) // now and then capacity and callback stay for long
		for st := 0; st < 250+u && !r.Stopped(); st++ {
			if left--; left < 0 {
				left = 5 + r.Intn(20+u)
				few, at = r.Intn(3) == 0, r.Intn(u)
			}
			i, k := 1+r.Intn(ni), r.Key(u)
			if few { // mostly the same few keys
				k = (at + r.Intn(3)) % u
			}
			x := r.Intn(40)
			if x >= 31 && x < 34 && r.Intn(pause) > 0 {
				x = r.Intn(31)
			}
			switch {
			case x < 18:
				v++
				r.Do(r.Churned(h.Obj{"op": "put", "i": i, "k": k, "v": r.Pick(v, v, v, v-1, 0)}))
			case x < 27:
				r.Do(r.Churned(h.Obj{"op": "get", "i": i, "k": k}))
			case x < 31:
				r.Do(r.Churned(h.Obj{"op": "remove", "i": i, "k": k}))
			case x < 33:
				r.Do(h.Obj{"op": "resize", "i": i, "n": cap()})
			case x < 34:
				r.Do(h.Obj{"op": "setcb", "i": i, "cb": cbs[r.Intn(len(cbs))], "ck": r.Intn(u)})
			case x < 36:
				r.Do(h.Obj{"op": "each", "i": i})
			case x < 38:
				r.Do(h.Obj{"op": "size", "i": i})
			default:
				r.Do(h.Obj{"op": "cap", "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "each", "i": i})
			for n := r.Pick(1, 3, u/2); n >= 0; n-- {
				r.Do(h.Obj{"op": "resize", "i": i, "n": n})
				r.Do(h.Obj{"op": "size", "i": i})
			}
			r.Do(h.Obj{"op": "each", "i": i})
		}
	}
}

// large records histories of caches with hundreds to thousands of entries.
func large(r *h.Rec) {
	for hist := 0; hist < r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		u := r.Pick(200, 300, 1100, 5000)
		cap := func() int { return r.Pick(u/2, u/3, u/7, 127, 128, 129, 255, 256, 257) }
		r.Do(h.Obj{"op": "new", "i": 1, "n": cap()})
		r.Do(h.Obj{"op": "setcb", "i": 1, "cb": []string{"none", "log", "log"}[r.Intn(3)], "ck": 0})
		next, v := 0, 1
		for st := 0; st < 24; st++ {
			n := r.Pick(1, 5, u/10, u/3)
			switch x := r.Intn(8); {
			case x < 4: // keys not seen before
				r.Do(h.Obj{"op": "putn", "i": 1, "k": next, "v": v, "n": n})
				next += n
				v += n
			case x < 5:
				r.Do(h.Obj{"op": "resize", "i": 1, "n": cap()})
			case x < 6:
				r.Do(h.Obj{"op": "remove", "i": 1, "k": r.Intn(next + 1)})
				r.Do(h.Obj{"op": "put", "i": 1, "k": r.Intn(next + 1), "v": v})
			default:
				r.Do(h.Obj{"op": "getn", "i": 1, "k": max(0, next-r.Intn(u)), "n": n})
			}
			r.Do(h.Obj{"op": "size", "i": 1})
			if st%6 == 5 {
				r.Do(h.Obj{"op": "each", "i": 1})
			}
		}
		r.Do(h.Obj{"op": "resize", "i": 1, "n": 3})
		r.Do(h.Obj{"op": "each", "i": 1})
		r.Do(h.Obj{"op": "size", "i": 1})
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 1 {
				return &sys[string]{strconv.Itoa, func(x string) int { n, _ := strconv.Atoi(x); return n },
					map[int]lru[string]{}, plain[string], map[int]*[]any{}, 0}
			}
			if v == 2 {
				kk := h.CmpKeys(2)
				return &sys[any]{kk.Mk, kk.Un, map[int]lru[any]{}, func(n int) lru[any] {
					c := cache.New[any, any](n)
					return boxed[any]{h.AnyMap[any]{M: c, Null: 10}, c}
				}, map[int]*[]any{}, 0}
			}
			id := func(x int) int { return x }
			return &sys[int]{id, id, map[int]lru[int]{}, plain[int], map[int]*[]any{}, 0}
		},
		Record: func(r *h.Rec) {
			record(r)
			large(r)
		},
	})
}
