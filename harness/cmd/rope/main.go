// Conformance driver for package rope (C21, C22).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/rope"
)

type sys[V any] struct {
	mk    func(int) V
	un    func(V) int
	v     int
	inst  map[int]*rope.Node[V]
	eachs int
}

// slice makes a slice of the given values; with spare capacity in some variants.
func (s *sys[V]) slice(l []int) []V {
	q := make([]V, 0, len(l)+(s.v%2)*(1+len(l)))
	for _, x := range l {
		q = append(q, s.mk(x))
	}
	if s.v%2 == 1 {
		for x := len(q); x < cap(q); x++ {
			q[:cap(q)][x] = s.mk(-7)
		}
	}
	return q
}

func (s *sys[V]) vals(q []V) []any {
	r := make([]any, len(q))
	for i := range q {
		r[i] = s.un(q[i])
	}
	return r
}

func (s *sys[V]) scribble(q []V) {
	q = q[:cap(q)]
	for i := range q {
		q[i] = s.mk(-1)
	}
}

var config h.Config

func (s *sys[V]) Do(o h.Obj) any {
	i := o.I("i")
	x := s.inst[i]
	switch op := o.S("op"); op {
	case "cfg":
		config.Set(o, &rope.SplitLength, &rope.JoinLength, &rope.RebalanceRatio)
	case "new":
		s.inst[i] = rope.New(s.slice(o.Ints("vals")))
	case "ins":
		q := s.slice(o.Ints("vals"))
		for t := h.Times(o); t > 0; t-- {
			x.Insert(o.I("n"), q)
			x.Remove(o.I("n"), o.I("n")+len(q))
		}
		x.Insert(o.I("n"), q)
		s.scribble(q)
	case "insself":
		x.Insert(o.I("n"), x.Slice(o.I("a"), o.I("b")))
	case "rm":
		x.Remove(o.I("a"), o.I("b"))
	case "split":
		l, r := x.SplitAt(o.I("n"))
		s.inst[i], s.inst[o.I("j")] = l, r
	case "join":
		var ns []*rope.Node[V]
		for _, k := range o.Ints("os") {
			ns = append(ns, s.inst[k])
			delete(s.inst, k)
		}
		s.inst[o.I("j")] = rope.Join(ns[0], ns[1], ns[2:]...)
	case "rebuild":
		x.Rebuild()
	case "rebalance":
		x.Rebalance()
	case "len":
		return h.L(x.Len())
	case "value":
		return s.vals(x.Value())
	case "leaves":
		r := []any{}
		s.eachs++
		n := h.Nest{}
		leaves := 0
		x.Each(func(nd *rope.Node[V]) {
			r = append(r, s.vals(nd.Value())...)
			leaves++
			if s.eachs%2 == 1 && n.Now() {
				c, at := 0, len(r)
				x.Each(func(*rope.Node[V]) { c++ })
				n.Check(x.Len() >= at && len(x.Value()) == x.Len() && len(x.Slice(0, at)) == at)
				n.Check(at == 0 || s.un(x.At(at-1)) == r[at-1])
				n.Count(c)
			}
		})
		if s.eachs%2 == 1 {
			return n.Result(r)
		}
		return r
	case "slice":
		return s.vals(x.Slice(o.I("a"), o.I("b")))
	case "at":
		return h.L(s.un(x.At(o.I("n"))))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// Probe reads somewhere.
func (s *sys[V]) Probe(r *rand.Rand) {
	for i := 1; i <= 5; i++ {
		x := s.inst[i]
		if x == nil || r.Intn(2) == 0 {
			continue
		}
		n := x.Len()
		switch r.Intn(4) {
		case 0:
			x.Value()
		case 1:
			a := r.Intn(n + 1)
			x.Slice(a, a+r.Intn(n-a+1))
		case 2:
			h.Iterated(r, func(f func()) { x.Each(func(n *rope.Node[V]) { n.Len(); n.Value(); f() }) })
		case 3:
			if n > 0 {
				x.At(r.Intn(n))
			}
		}
	}
}

func record(r *h.Rec) {
	r.Churn = 1
	all := r.Focus == "all"
	next := 0
	vals := func(n int) []any {
		l := make([]any, n)
		for x := range l {
			next++
			l[x] = next
		}
		return l
	}
	for hist := 0; hist < 12*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(5))
		sl := r.Pick(1, 2, 3, 4, 8, 33)
		big, limit, steps := 1+r.Intn(6*sl), 300, 150
		if r.Thorough && hist == 0 {
			sl, big, limit, steps = 16384, 20000, 70000, 60
		}
		jl := r.Pick(0, 1, sl/2, sl, r.Intn(sl+1))
		r.Do(h.Obj{"op": "cfg", "sl": sl, "jl": jl, "rr": r.Pick(10, 11, 12, 15, 15, 20, 30, 50)})
		n := map[int]int{1: r.Pick(0, 1, sl, sl+1, 2*sl, r.Intn(4*sl+1))}
		r.Do(h.Obj{"op": "new", "i": 1, "vals": vals(n[1])})
		grow := 0.5
		// in some histories short ropes are rebalanced often
		reb := r.Pick(0, 0, 8)
		if reb > 0 {
			limit = 3*sl + 3
		}
		for st := 0; st < steps; st++ {
			if st%25 == 0 {
				grow = []float64{0.1, 0.5, 0.6, 0.9}[r.Intn(4)]
			}
			ids := []int{}
			for i := 1; i <= 5; i++ {
				if _, ok := n[i]; ok {
					ids = append(ids, i)
				}
			}
			i := ids[r.Intn(len(ids))]
			pos := func() int { return r.Pick(0, n[i], n[i]/2, r.Intn(n[i]+1), r.Intn(n[i]+1), r.Intn(n[i]+1)) }
			rang := func() (int, int) {
				a, b := pos(), pos()
				if r.Intn(2) == 0 {
					b = min(n[i], a+r.Intn(3))
				}
				return min(a, b), max(a, b)
			}
			free := 1
			for ; free <= 5; free++ {
				if _, ok := n[free]; !ok {
					break
				}
			}
			switch x := r.Intn(20 + reb); {
			case x < 10 || !all && x < 14:
				if r.Float64() < grow && n[i] < limit {
					if r.Intn(4) == 0 && n[i] > 0 {
						a, b := rang()
						r.Do(h.Obj{"op": "insself", "i": i, "n": pos(), "a": a, "b": b})
						n[i] += b - a
					} else {
						c := r.Pick(0, 1, 1, 2, 3, r.Intn(big+1))
						r.Do(r.Churned(h.Obj{"op": "ins", "i": i, "n": pos(), "vals": vals(c)}))
						n[i] += c
					}
				} else {
					a, b := rang()
					r.Do(h.Obj{"op": "rm", "i": i, "a": a, "b": b})
					n[i] -= b - a
				}
			case x < 14 && free <= 5:
				p := pos()
				r.Do(h.Obj{"op": "split", "i": i, "j": free, "n": p})
				n[free] = n[i] - p
				n[i] = p
			case x < 15 && all && free <= 5 && r.Intn(2) == 0:
				c := r.Pick(0, 1, sl, sl+1, r.Intn(3*sl+1))
				r.Do(h.Obj{"op": "new", "i": free, "vals": vals(c)})
				n[free] = c
			case x < 16 && all:
				if len(ids) > 1 {
					k := 2 + r.Intn(len(ids)-1)
					os, t, j := []any{}, 0, 99
					for _, y := range r.Perm(len(ids))[:k] {
						os = append(os, ids[y])
						t += n[ids[y]]
						j = min(j, ids[y])
					}
					for _, y := range os {
						delete(n, y.(int))
					}
					r.Do(h.Obj{"op": "join", "os": os, "j": j})
					n[j] = t
				}
			case x < 17 && all:
				r.Do(h.Obj{"op": "rebuild", "i": i})
			case x < 18 && all:
				r.Do(h.Obj{"op": "rebalance", "i": i})
			case x >= 20 && all:
				r.Do(h.Obj{"op": "rebalance", "i": i})
			default:
				a, b := rang()
				if b-a > 400 {
					b = a + 400
				}
				r.Do(h.Obj{"op": "slice", "i": i, "a": a, "b": b})
				if n[i] > 0 {
					r.Do(h.Obj{"op": "at", "i": i, "n": min(pos(), n[i]-1)})
				}
			}
			if r.Intn(3) == 0 || st == steps-1 {
				for i := 1; i <= 5; i++ {
					if _, ok := n[i]; ok {
						r.Do(h.Obj{"op": "len", "i": i})
						if sl < 1000 || st == steps-1 {
							r.Do(h.Obj{"op": "value", "i": i})
							if all {
								r.Do(h.Obj{"op": "leaves", "i": i})
							}
						}
					}
				}
			}
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 5,
		Skip:     func(_ string, v int) bool { return v == 3 },
		// 0, 1: integers, 2, 3: strings, 4: any; 1, 3: slices with spare capacity
		New: func(v int) h.Sys {
			if v == 4 {
				return &sys[any]{func(x int) any { return h.MkAny(x, 2) }, func(x any) int { return h.UnAny(x, 2) }, v, map[int]*rope.Node[any]{}, 0}
			}
			if v >= 2 {
				return &sys[string]{func(x int) string { return strconv.Itoa(x) }, func(x string) int {
					if x == "" {
						return 0
					}
					n, err := strconv.Atoi(x)
					if err != nil {
						panic(h.Bad(err.Error()))
					}
					return n
				}, v, map[int]*rope.Node[string]{}, 0}
			}
			return &sys[int]{func(x int) int { return x }, func(x int) int { return x }, v, map[int]*rope.Node[int]{}, 0}
		},
		Record: record,
	})
}
