// Conformance driver for package stack (C13, C05).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/stack"
)

type sys[V any] struct {
	mk   func(int) V
	un   func(V) int
	inst map[int]*stack.Stack[V]
}

// Probe reads something.
func (s *sys[V]) Probe(r *rand.Rand) {
	if r.Intn(2) == 0 {
		s.inst[1].Size()
	} else {
		s.inst[1].Peek()
	}
}

func (s *sys[V]) Do(o h.Obj) any {
	x := s.inst[o.I("i")]
	switch op := o.S("op"); op {
	case "new":
		s.inst[o.I("i")] = stack.New[V]()
	case "push":
		for n := h.Times(o); n > 0; n-- {
			x.Push(s.mk(n))
			x.Peek()
			x.Pop()
		}
		x.Push(s.mk(o.I("v")))
	case "many":
		for n := 0; n < o.I("n"); n++ {
			x.Push(s.mk(o.I("v") + n))
		}
	case "popn":
		l := []any{}
		for n := 0; n < o.I("n") && x.Size() > 0; n++ {
			l = append(l, s.un(x.Pop()))
		}
		return l
	case "pop":
		return h.L(s.un(x.Pop()))
	case "top":
		return h.L(s.un(x.Peek()))
	case "size":
		return h.L(x.Size())
	case "copy":
		s.inst[o.I("j")] = x.Copy()
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 16*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		ni, max := 1+r.Intn(2), 2
		if r.Focus == "copies" {
			max = 2 + r.Intn(4)
		}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "new", "i": i})
		}
		size := make([]int, 10)
		grow := 0.5
		for st := 0; st < 300; st++ {
			if st%30 == 0 {
				grow = []float64{0.2, 0.5, 0.6, 0.9}[r.Intn(4)]
			}
			i := 1 + r.Intn(ni)
			switch x := r.Intn(20); {
			case x < 15:
				if r.Float64() < grow {
					v := r.Intn(1000)
					if r.Intn(8) == 0 {
						v = 0
					}
					r.Do(r.Churned(h.Obj{"op": "push", "i": i, "v": v}))
					size[i]++
				} else {
					r.Do(h.Obj{"op": "pop", "i": i})
					if size[i] > 0 {
						size[i]--
					}
				}
			case x < 17 && r.Focus == "copies":
				j := 1 + r.Intn(max)
				if j > ni {
					ni++
					j = ni
				}
				if i != j {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
					size[j] = size[i]
				}
			default:
				r.Do(h.Obj{"op": "top", "i": i})
				r.Do(h.Obj{"op": "size", "i": i})
			}
		}
		for n := 0; n < 2; n++ {
			for i := 1; i <= ni; i++ {
				for ; size[i] > -2; size[i]-- {
					r.Do(h.Obj{"op": "top", "i": i})
					r.Do(h.Obj{"op": "pop", "i": i})
				}
				r.Do(h.Obj{"op": "size", "i": i})
				for size[i] = 0; size[i] < 5; size[i]++ {
					r.Do(h.Obj{"op": "push", "i": i, "v": 100 + size[i]})
				}
			}
		}
	}
}

// large records histories of stacks with thousands of values.
func large(r *h.Rec) {
	for hist := 0; hist < 2*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		r.Do(h.Obj{"op": "new", "i": 1})
		size, v := 0, 1
		for st := 0; st < 60; st++ {
			n := r.Pick(1, 2, 3, r.Intn(40), r.Intn(300), r.Intn(2000), 1<<r.Intn(12)-r.Intn(2))
			if r.Intn(8) == 0 {
				n = max(0, size+r.Intn(3)-1)
			}
			if r.Intn(2) == 0 && size < 6000 {
				r.Do(h.Obj{"op": "many", "i": 1, "n": n, "v": v})
				v += n
				size += n
			} else {
				r.Do(h.Obj{"op": "popn", "i": 1, "n": n})
				size = max(0, size-n)
			}
			r.Do(h.Obj{"op": []string{"size", "top"}[r.Intn(2)], "i": 1})
		}
		r.Do(h.Obj{"op": "popn", "i": 1, "n": size + 5})
		r.Do(h.Obj{"op": "pop", "i": 1})
		r.Do(h.Obj{"op": "many", "i": 1, "n": 3, "v": 7})
		r.Do(h.Obj{"op": "popn", "i": 1, "n": 4})
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 1 {
				return &sys[string]{func(n int) string {
					if n == 0 {
						return ""
					}
					return strconv.Itoa(n)
				}, func(x string) int { n, _ := strconv.Atoi(x); return n }, map[int]*stack.Stack[string]{}}
			}
			if v == 2 {
				return &sys[any]{func(x int) any { return h.MkAny(x, 0) }, func(x any) int { return h.UnAny(x, 0) }, map[int]*stack.Stack[any]{}}
			}
			id := func(x int) int { return x }
			return &sys[int]{id, id, map[int]*stack.Stack[int]{}}
		},
		Record: func(r *h.Rec) {
			record(r)
			if r.Focus != "copies" {
				large(r)
			}
		},
	})
}
