// Conformance driver for package interval (C02, C15, C16).
package main

import (
	"fmt"
	"math"
	"math/rand"

	"verif/harness/h"

	"github.com/zyedidia/generic/interval"
	"golang.org/x/exp/constraints"
)

type sys[I constraints.Ordered] struct {
	mk    func(int) I
	un    func(I) int
	inst  map[int]tree[I]
	any   bool // values of interface type
	lows  []int
	eachs int
	res   h.Results
}

// tree is an interval tree with numbers as values.
type tree[I constraints.Ordered] interface {
	Put(lo, hi I, v int) (interval.KV[I, int], bool)
	Add(lo, hi I, v int) (interval.KV[I, int], bool)
	Remove(I) (interval.KV[I, int], bool)
	Get(I) (interval.KV[I, int], bool)
	Overlaps(lo, hi I) []interval.KV[I, int]
	Each(func(I, I, int))
	Size() int
	Height() int
}

// boxed has values of interface type.
type boxed[I constraints.Ordered] struct{ *interval.Tree[I, any] }

func kvInt[I constraints.Ordered](kv interval.KV[I, any], ok bool) (interval.KV[I, int], bool) {
	return interval.KV[I, int]{Low: kv.Low, High: kv.High, Val: h.UnAny(kv.Val, 101)}, ok
}
func (t boxed[I]) Put(lo, hi I, v int) (interval.KV[I, int], bool) {
	return kvInt(t.Tree.Put(lo, hi, h.MkAny(v, 101)))
}
func (t boxed[I]) Add(lo, hi I, v int) (interval.KV[I, int], bool) {
	return kvInt(t.Tree.Add(lo, hi, h.MkAny(v, 101)))
}
func (t boxed[I]) Remove(lo I) (interval.KV[I, int], bool) { return kvInt(t.Tree.Remove(lo)) }
func (t boxed[I]) Get(lo I) (interval.KV[I, int], bool)    { return kvInt(t.Tree.Get(lo)) }
func (t boxed[I]) Overlaps(lo, hi I) (r []interval.KV[I, int]) {
	for _, kv := range t.Tree.Overlaps(lo, hi) {
		x, _ := kvInt(kv, true)
		r = append(r, x)
	}
	return r
}
func (t boxed[I]) Each(fn func(lo, hi I, v int)) {
	t.Tree.Each(func(lo, hi I, v any) { fn(lo, hi, h.UnAny(v, 101)) })
}

// Probe reads something.
func (s *sys[I]) Probe(r *rand.Rand) {
	t := s.inst[1]
	lo := r.Intn(8)
	if len(s.lows) > 0 && r.Intn(4) > 0 {
		lo = s.lows[r.Intn(len(s.lows))] + r.Intn(5)/3
	}
	switch r.Intn(8) {
	case 0:
		t.Size()
	case 1:
		h.Iterated(r, func(f func()) { t.Each(func(I, I, int) { f() }) })
	case 2, 3, 4:
		t.Overlaps(s.mk(lo), s.mk(lo+r.Intn(4)))
	default:
		t.Get(s.mk(lo))
	}
}

func newSys[I constraints.Ordered](mk func(int) I, un func(I) int) h.Sys {
	return &sys[I]{mk, un, map[int]tree[I]{}, false, nil, 0, h.Results{}}
}

func (s *sys[I]) kv(kv interval.KV[I, int]) []any { return h.L(s.un(kv.Low), s.un(kv.High), kv.Val) }

func (s *sys[I]) found(kv interval.KV[I, int], ok bool) []any {
	if !ok {
		return h.L(0)
	}
	return append(h.L(1), s.kv(kv)...)
}

func (s *sys[I]) Do(o h.Obj) any {
	t := s.inst[o.I("i")]
	lo := o.I("lo")
	if h.Replaying {
		s.lows = append(s.lows, lo)
	}
	if x := h.Times(o); x > 0 { // without effect in the end
		e, ok := t.Get(s.mk(lo))
		for ; x > 0; x-- {
			if ok {
				t.Remove(e.Low)
				t.Put(e.Low, e.High, e.Val)
			} else {
				t.Put(s.mk(lo), s.mk(lo+x%9), -x)
				t.Remove(s.mk(lo))
			}
			if x%16 == 0 {
				t.Overlaps(s.mk(lo), s.mk(lo+1))
			}
		}
	}
	switch o.S("op") {
	case "new":
		if s.any {
			s.inst[o.I("i")] = boxed[I]{interval.New[I, any]()}
		} else {
			s.inst[o.I("i")] = interval.New[I, int]()
		}
	case "put":
		return s.found(t.Put(s.mk(lo), s.mk(o.I("hi")), o.I("v")))
	case "add":
		return s.found(t.Add(s.mk(lo), s.mk(o.I("hi")), o.I("v")))
	case "remove":
		return s.found(t.Remove(s.mk(lo)))
	case "putrange":
		for x := 0; x < o.I("n"); x++ {
			t.Put(s.mk(lo+x), s.mk(lo+x+o.I("w")), o.I("v")+x)
		}
	case "removerange":
		for x := 0; x < o.I("n"); x++ {
			t.Remove(s.mk(lo + x))
		}
	case "get":
		return s.found(t.Get(s.mk(lo)))
	case "size":
		return h.L(t.Size())
	case "each":
		r := []any{}
		s.eachs++
		n := h.Nest{}
		t.Each(func(a, b I, v int) {
			r = append(r, h.L(s.un(a), s.un(b), v))
			if s.eachs%2 == 1 && n.Now() {
				kv, ok := t.Get(a)
				n.Check(ok && kv.Low == a && kv.High == b && kv.Val == v)
				in := a >= b
				for _, kv := range t.Overlaps(a, b) {
					in = in || kv.Low == a
				}
				n.Check(in)
				c := 0
				t.Each(func(I, I, int) { c++ })
				n.Count(c)
				n.Check(t.Size() == c)
			}
		})
		if s.eachs%2 == 1 {
			return n.Result(r)
		}
		return r
	case "overlaps":
		r := []any{}
		q := t.Overlaps(s.mk(lo), s.mk(o.I("hi")))
		for _, kv := range q {
			r = append(r, s.kv(kv))
		}
		return h.Take(&s.res, q, func(kv interval.KV[I, int]) any { return kv }, r)
	case "ovall":
		// All queries with 0 <= a <= b <= n; low ends only. A hit that differs
		// from what Get says is stored there is reported as -1000-low.
		r := []any{}
		for a := 0; a <= o.I("n"); a++ {
			for b := a; b <= o.I("n"); b++ {
				q := []any{}
				for _, kv := range t.Overlaps(s.mk(a), s.mk(b)) {
					if g, ok := t.Get(kv.Low); !ok || g != kv {
						q = append(q, -1000-s.un(kv.Low))
					} else {
						q = append(q, s.un(kv.Low))
					}
				}
				r = append(r, q)
			}
		}
		return r
	case "height":
		n := 0
		t.Each(func(I, I, int) { n++ })
		return h.L(n, t.Height())
	default:
		panic(h.Bad("unknown op " + o.S("op")))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 10*r.Scale && !r.Stopped(); hist++ {
		r.Reset([]int{0, 1, 2, 3, 6}[hist%5])
		ni := 1 + r.Intn(2)
		u := r.Pick(5, 8, 12, 20, 40, 150, 300)
		if u > 100 {
			ni = 1
		}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "new", "i": i})
		}
		wmax := r.Pick(0, 1, 3, 20)
		far := r.Pick(3, 10, 100)
		v, grow := 100, 0.5
		mode, at, left := 0, 0, 0
		steps := 120 + r.Intn(200) + u
		i := 1
		for st := 0; st < steps && !r.Stopped(); st++ {
			if left--; left < 0 {
				left = 10 + r.Intn(u+30)
				grow = []float64{0, 0.2, 0.5, 0.8, 0.95, 1}[r.Intn(6)]
				mode, at = r.Pick(0, 0, 0, 1, 2, 3), r.Intn(u)
				if st == 0 {
					grow = 1
				}
			}
			if r.Intn(4) == 0 {
				i = 1 + r.Intn(ni)
			}
			lo := r.Key(u) - 2
			if mode > 0 {
				at = (at + []int{0, 1, u - 1, 7}[mode]) % u
				lo = at - 2
			}
			hi := lo + r.Intn(wmax+1)
			if r.Intn(far) == 0 {
				hi = lo + r.Intn(2*u)
			}
			v++
			switch x := r.Intn(20); {
			case x < 11:
				if r.Float64() >= grow {
					r.Do(r.Churned(h.Obj{"op": "remove", "i": i, "lo": lo}))
				} else if r.Intn(4) == 0 {
					r.Do(h.Obj{"op": "add", "i": i, "lo": lo, "hi": hi, "v": v})
				} else {
					r.Do(r.Churned(h.Obj{"op": "put", "i": i, "lo": lo, "hi": hi, "v": r.Pick(v, v, v, 0)}))
				}
				if r.Focus == "balance" {
					r.Do(h.Obj{"op": "height", "i": i})
				} else if r.Intn(3) == 0 {
					r.Do(h.Obj{"op": "get", "i": i, "lo": lo})
				}
				if r.Focus == "overlaps" {
					a := lo + r.Intn(wmax+4) - 2
					r.Do(h.Obj{"op": "overlaps", "i": i, "lo": a, "hi": a + r.Intn(3)})
					r.Do(h.Obj{"op": "overlaps", "i": i, "lo": hi - 1, "hi": hi + r.Intn(2)})
				}
			case x < 12 && r.Focus == "map":
				r.Do(h.Obj{"op": []string{"add", "put"}[r.Intn(2)], "i": i, "lo": lo, "hi": lo - 1 - r.Intn(3), "v": v})
			case x < 15:
				r.Do(h.Obj{"op": "get", "i": i, "lo": r.Key(u+2) - 3})
			case x < 16:
				r.Do(h.Obj{"op": "size", "i": i})
			case x < 17 && r.Intn(u) < 20:
				r.Do(h.Obj{"op": "each", "i": i})
			default:
				a := r.Intn(u+4) - 4
				r.Do(h.Obj{"op": "overlaps", "i": i, "lo": a, "hi": a + r.Intn(wmax+3)})
			}
		}
		for i := 1; i <= ni; i++ {
			if u <= 12 {
				r.Do(h.Obj{"op": "ovall", "i": i, "n": u})
			}
			r.Do(h.Obj{"op": "each", "i": i})
			r.Do(h.Obj{"op": "size", "i": i})
		}
	}
	// Large trees built and emptied in order.
	for hist := 0; hist < 2*r.Scale && !r.Stopped(); hist++ {
		r.Reset([]int{0, 1, 2, 3, 6}[hist%5])
		r.Do(h.Obj{"op": "new", "i": 1})
		v, u := 100, r.Pick(300, 600, 4000)
		for st := 0; st < 40; st++ {
			lo := r.Intn(u)
			n := r.Pick(1, 3, 10, 64, u/4)
			w := []int{0, 1, 2, 7, 50, 400}[r.Intn(6)]
			if r.Intn(3) == 0 {
				r.Do(h.Obj{"op": "removerange", "i": 1, "lo": lo, "n": n})
			} else {
				r.Do(h.Obj{"op": "putrange", "i": 1, "lo": lo, "n": n, "w": w, "v": v})
				v += n
			}
			for q := 0; q < 8; q++ {
				a := r.Intn(u+500) - 20
				if q < 3 {
					a = lo + []int{0, n, n + w}[q] - 1
				}
				r.Do(h.Obj{"op": "overlaps", "i": 1, "lo": a, "hi": a + r.Intn(4)})
			}
			r.Do(h.Obj{"op": "get", "i": 1, "lo": lo})
			r.Do(h.Obj{"op": "size", "i": 1})
			if r.Focus == "balance" {
				r.Do(h.Obj{"op": "height", "i": 1})
			}
		}
		r.Do(h.Obj{"op": "each", "i": 1})
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 7,
		Skip:     func(focus string, v int) bool { return focus == "shape" && (v == 4 || v == 5) || focus == "" && v == 6 },
		New: func(v int) h.Sys {
			switch v {
			case 1: // negative and positive halves
				return newSys(func(k int) float64 { return float64(k)/2 - 2.25 }, func(f float64) int { return int((f + 2.25) * 2) })
			case 2:
				return newSys(func(k int) string { return fmt.Sprintf("%011d", k+5000000) }, func(s string) int {
					var n int
					fmt.Sscanf(s, "%d", &n)
					return n - 5000000
				})
			case 3: // all negative, widely spaced
				return newSys(func(k int) int64 { return int64(k)*1000003 - 1<<40 }, func(x int64) int { return int((x + 1<<40) / 1000003) })
			}
			switch v {
			case 4: // values of interface type; the keys end where their type ends
				return &sys[uint8]{func(k int) uint8 { return uint8(min(245+k, 255)) }, func(k uint8) int { return int(k) - 245 }, map[int]tree[uint8]{}, true, nil, 0, h.Results{}}
			case 5: // the extremes of the type, and keys whose differences overflow
				return newSys(func(k int) int64 {
					switch {
					case k <= 0:
						return math.MinInt64
					case k >= 10:
						return math.MaxInt64
					}
					return int64(k-5) << 60
				}, func(x int64) int {
					switch x {
					case math.MinInt64:
						return 0
					case math.MaxInt64:
						return 10
					}
					return int(x>>60) + 5
				})
			case 6:
				return &sys[int]{func(k int) int { return k }, func(k int) int { return k }, map[int]tree[int]{}, true, nil, 0, h.Results{}}
			}
			return newSys(func(k int) int { return k }, func(k int) int { return k })
		},
		Record: record,
	})
}
