// Conformance driver for package prope (C23, C24).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/prope"
)

type sys[V any] struct {
	mk   func(int) V
	un   func(V) int
	v    int
	inst map[int]*prope.Node[V]
}

// slice makes a slice of the given values; with spare capacity in some variants.
func (s *sys[V]) slice(l []int) []V {
	q := make([]V, 0, len(l)+(s.v%2)*(1+len(l)))
	for _, x := range l {
		q = append(q, s.mk(x))
	}
	if s.v%2 == 1 {
		for x := len(q); x < cap(q); x++ {
			q[:cap(q)][x] = s.mk(-7)
		}
	}
	return q
}

// vals turns the result of a read into integers, and then writes into it.
func (s *sys[V]) vals(q []V) []any {
	r := make([]any, len(q))
	for i := range q {
		r[i] = s.un(q[i])
	}
	s.scribble(q)
	return r
}

func (s *sys[V]) scribble(q []V) {
	q = q[:cap(q)]
	for i := range q {
		q[i] = s.mk(-1)
	}
}

var config h.Config

func (s *sys[V]) Do(o h.Obj) any {
	i, j := o.I("i"), o.I("j")
	x := s.inst[i]
	switch op := o.S("op"); op {
	case "cfg":
		config.Set(o, &prope.SplitLength, &prope.JoinLength, &prope.RebalanceRatio)
	case "new":
		s.inst[i] = prope.New(s.slice(o.Ints("vals")))
	case "ins":
		q := s.slice(o.Ints("vals"))
		for t := h.Times(o); t > 0; t-- {
			x = x.Insert(o.I("n"), q)
			x = x.Remove(o.I("n"), o.I("n")+len(q))
		}
		s.inst[j] = x.Insert(o.I("n"), q)
		s.scribble(q)
	case "insof":
		q := s.inst[o.I("m")].Slice(o.I("a"), o.I("b"))
		s.inst[j] = x.Insert(o.I("n"), q)
		s.scribble(q)
	case "rm":
		s.inst[j] = x.Remove(o.I("a"), o.I("b"))
	case "split":
		l, r := x.SplitAt(o.I("n"))
		s.inst[j], s.inst[o.I("k")] = l, r
	case "join":
		var ns []*prope.Node[V]
		for _, k := range o.Ints("os") {
			ns = append(ns, s.inst[k])
		}
		s.inst[j] = prope.Join(ns...)
		for x := range ns {
			ns[x] = nil
		}
	case "rebuild":
		x.Rebuild()
	case "rebalance":
		x.Rebalance()
	case "len":
		return h.L(x.Len())
	case "value":
		return s.vals(x.Value())
	case "slice":
		return s.vals(x.Slice(o.I("a"), o.I("b")))
	case "at":
		return h.L(s.un(x.At(o.I("n"))))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// Probe reads some versions.
func (s *sys[V]) Probe(r *rand.Rand) {
	for i := 1; i <= 8; i++ {
		x := s.inst[i]
		if x == nil || r.Intn(2) == 0 {
			continue
		}
		n := x.Len()
		switch r.Intn(3) {
		case 0:
			s.scribble(x.Value())
		case 1:
			a := r.Intn(n + 1)
			s.scribble(x.Slice(a, a+r.Intn(n-a+1)))
		case 2:
			if n > 0 {
				x.At(r.Intn(n))
			}
		}
	}
}

func record(r *h.Rec) {
	const NV = 8
	r.Churn = 1
	next := 0
	vals := func(n int) []any {
		l := make([]any, n)
		for x := range l {
			next++
			l[x] = next
		}
		return l
	}
	for hist := 0; hist < 10*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(5))
		sl := r.Pick(1, 2, 3, 4, 8, 33)
		if r.Thorough && r.Intn(8) == 0 {
			sl = 256
		}
		limit := 200 + 4*sl
		jl := r.Pick(0, 1, sl/2, sl, r.Intn(sl+1))
		r.Do(h.Obj{"op": "cfg", "sl": sl, "jl": jl, "rr": r.Pick(10, 11, 12, 15, 15, 20, 30, 50)})
		n := map[int]int{1: r.Pick(0, 1, sl, sl+1, 2*sl, r.Intn(4*sl+1))}
		r.Do(h.Obj{"op": "new", "i": 1, "vals": vals(n[1])})
		grow := 0.5
		// in some histories short ropes are rebalanced often
		reb := r.Pick(0, 0, 8)
		if reb > 0 {
			limit = 3*sl + 3
		}
		const steps = 120
		for st := 0; st < steps; st++ {
			if st%20 == 0 {
				grow = []float64{0.2, 0.5, 0.6, 0.9}[r.Intn(4)]
			}
			ids := []int{}
			for i := 1; i <= NV; i++ {
				if _, ok := n[i]; ok {
					ids = append(ids, i)
				}
			}
			i := ids[r.Intn(len(ids))]
			pos := func() int { return r.Pick(0, n[i], n[i]/2, r.Intn(n[i]+1), r.Intn(n[i]+1), r.Intn(n[i]+1)) }
			rang := func(i int) (int, int) {
				a, b := r.Intn(n[i]+1), r.Pick(0, n[i], r.Intn(n[i]+1))
				if r.Intn(2) == 0 {
					b = min(n[i], a+r.Intn(3))
				}
				return min(a, b), max(a, b)
			}
			// forget some version, or take a new number
			j := 1 + r.Intn(NV)
			switch x := r.Intn(20 + reb); {
			case x < 9:
				if r.Float64() < grow && n[i] < limit {
					if r.Intn(3) == 0 {
						m := ids[r.Intn(len(ids))]
						a, b := rang(m)
						c := n[i] + b - a
						r.Do(h.Obj{"op": "insof", "i": i, "j": j, "n": pos(), "m": m, "a": a, "b": b})
						n[j] = c
					} else {
						c := r.Pick(0, 1, 1, 2, 3, r.Intn(2*sl+1))
						r.Do(r.Churned(h.Obj{"op": "ins", "i": i, "j": j, "n": pos(), "vals": vals(c)}))
						n[j] = n[i] + c
					}
				} else {
					a, b := rang(i)
					r.Do(h.Obj{"op": "rm", "i": i, "j": j, "a": a, "b": b})
					n[j] = n[i] - (b - a)
				}
			case x < 12:
				k := 1 + (j+r.Intn(NV-1))%NV
				p := pos()
				t := n[i]
				r.Do(h.Obj{"op": "split", "i": i, "j": j, "k": k, "n": p})
				n[j], n[k] = p, t-p
			case x < 15:
				os, t := []any{}, 0
				for y := r.Pick(0, 1, 2, 2, 2, 3, 4); y > 0; y-- {
					k := ids[r.Intn(len(ids))]
					if t+n[k] > 2*limit {
						break
					}
					os = append(os, k)
					t += n[k]
				}
				r.Do(h.Obj{"op": "join", "os": os, "j": j})
				n[j] = t
			case x < 16:
				r.Do(h.Obj{"op": "rebuild", "i": i})
			case x < 17:
				r.Do(h.Obj{"op": "rebalance", "i": i})
			case x >= 20:
				r.Do(h.Obj{"op": "rebalance", "i": i})
			default:
				a, b := rang(i)
				r.Do(h.Obj{"op": "slice", "i": i, "a": a, "b": b})
				if n[i] > 0 {
					r.Do(h.Obj{"op": "at", "i": i, "n": min(pos(), n[i]-1)})
				}
			}
			if r.Intn(3) == 0 || st == steps-1 {
				for i := 1; i <= NV; i++ {
					if _, ok := n[i]; ok {
						r.Do(h.Obj{"op": "len", "i": i})
						r.Do(h.Obj{"op": "value", "i": i})
					}
				}
			}
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 5,
		Skip:     func(_ string, v int) bool { return v == 2 || v == 3 },
		// 0, 1: integers, 2, 3: strings, 4: any; 1, 3: slices with spare capacity
		New: func(v int) h.Sys {
			if v == 4 {
				return &sys[any]{func(x int) any { return h.MkAny(x, 2) }, func(x any) int { return h.UnAny(x, 2) }, v, map[int]*prope.Node[any]{}}
			}
			if v >= 2 {
				return &sys[string]{func(x int) string { return strconv.Itoa(x) }, func(x string) int {
					if x == "" {
						return 0
					}
					n, err := strconv.Atoi(x)
					if err != nil {
						panic(h.Bad(err.Error()))
					}
					return n
				}, v, map[int]*prope.Node[string]{}}
			}
			return &sys[int]{func(x int) int { return x }, func(x int) int { return x }, v, map[int]*prope.Node[int]{}}
		},
		Record: record,
	})
}
