// Conformance driver for package heap (C14).
package main

import (
	"fmt"
	"math/rand"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/heap"
)

type sys[V any] struct {
	mk   func(rank, tag int) V
	un   func(V) (int, int)
	less g.LessFn[V]
	v    int
	inst map[int]*heap.Heap[V]
}

func (s *sys[V]) elem(l []int) V { return s.mk(l[0], l[1]) }

func (s *sys[V]) res(v V, ok bool) any {
	a, b := s.un(v)
	if !ok && any(v) == nil {
		a, b = 0, 0
	}
	return h.L(a, b, h.B(ok))
}

// Probe reads something.
func (s *sys[V]) Probe(r *rand.Rand) {
	if r.Intn(2) == 0 {
		s.inst[1].Size()
	} else {
		s.inst[1].Peek()
	}
}

func (s *sys[V]) Do(o h.Obj) any {
	x := s.inst[o.I("i")]
	switch op := o.S("op"); op {
	case "of":
		var sl []V
		for _, e := range o.IntLists("vals") {
			sl = append(sl, s.elem(e))
		}
		switch {
		case len(sl) == 0 && s.v%3 == 2:
			s.inst[o.I("i")] = heap.New(s.less)
		case s.v%2 == 0:
			s.inst[o.I("i")] = heap.From(s.less, sl...)
		default:
			s.inst[o.I("i")] = heap.FromSlice(s.less, sl)
		}
	case "push":
		for n := h.Times(o); n > 0; n-- {
			if y, ok := x.Pop(); ok {
				x.Push(y)
			} else {
				x.Push(s.elem(o.Ints("v")))
				x.Pop()
			}
		}
		x.Push(s.elem(o.Ints("v")))
	case "pushn":
		for n, a := range o.Ints("rs") {
			x.Push(s.mk(a, o.I("t")+n))
		}
	case "pop":
		return s.res(x.Pop())
	case "peek":
		return s.res(x.Peek())
	case "size":
		return h.L(x.Size())
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 16*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(24))
		ranks := r.Pick(1, 3, 10, 100, 1000)
		ni := 1 + r.Intn(2)
		tag := 0
		size := []int{0, 0, 0}
		el := func() []int {
			tag++
			if r.Intn(10) == 0 {
				return []int{1 + r.Intn(ranks), 1} // maybe equal to another one
			}
			return []int{1 + r.Intn(ranks), tag}
		}
		for i := 1; i <= ni; i++ {
			vals := []any{}
			size[i] = r.Pick(0, 1, 2, 3, r.Intn(20), r.Intn(120))
			for n := 0; n < size[i]; n++ {
				vals = append(vals, h.L(el()...))
			}
			r.Do(h.Obj{"op": "of", "i": i, "vals": vals})
		}
		grow := 0.5
		for st := 0; st < 250; st++ {
			if st%40 == 0 {
				grow = []float64{0.2, 0.5, 0.6, 0.95}[r.Intn(4)]
			}
			i := 1 + r.Intn(ni)
			if r.Float64() < grow {
				e := el()
				r.Do(r.Churned(h.Obj{"op": "push", "i": i, "v": h.L(e...)}))
				size[i]++
			} else {
				r.Do(h.Obj{"op": "pop", "i": i})
				if size[i] > 0 {
					size[i]--
				}
			}
			if r.Intn(4) == 0 {
				r.Do(h.Obj{"op": "peek", "i": i})
				r.Do(h.Obj{"op": "size", "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			for ; size[i] > -2; size[i]-- {
				r.Do(h.Obj{"op": "peek", "i": i})
				r.Do(h.Obj{"op": "pop", "i": i})
				r.Do(h.Obj{"op": "size", "i": i})
			}
		}
	}
}

// large records histories of heaps with hundreds to thousands of elements,
// arriving in one of several orders.
func large(r *h.Rec) {
	for hist := 0; hist < r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(24))
		ranks := r.Pick(2, 30, 1000, 100000)
		tag := 1
		some := func(n int) []any {
			l := make([]any, n)
			mode, at := r.Intn(4), r.Intn(ranks)
			for x := range l {
				switch mode {
				case 0:
					at = r.Intn(ranks)
				case 1:
					at = min(at+r.Intn(2), ranks-1)
				case 2:
					at = max(at-r.Intn(2), 0)
				case 3:
					at = (at + ranks/2 + r.Intn(3)) % ranks
				}
				l[x] = 1 + at
			}
			return l
		}
		vals, size := []any{}, r.Pick(0, 31, 100, 700)
		for _, a := range some(size) {
			tag++
			vals = append(vals, []any{a, tag})
		}
		r.Do(h.Obj{"op": "of", "i": 1, "vals": vals})
		pops := 0
		for st := 0; st < 16 && pops < 900; st++ {
			if r.Intn(2) == 0 && size < 1500 {
				n := r.Pick(1, 7, r.Intn(100), r.Intn(600))
				r.Do(h.Obj{"op": "pushn", "i": 1, "rs": some(n), "t": tag + 1})
				tag += n
				size += n
			} else {
				for n := r.Pick(1, 7, r.Intn(60), r.Intn(200), size); n > 0 && size > 0 && pops < 900; n-- {
					r.Do(h.Obj{"op": "pop", "i": 1})
					size--
					pops++
				}
			}
			r.Do(h.Obj{"op": "peek", "i": 1})
			r.Do(h.Obj{"op": "size", "i": 1})
		}
	}
}

type elem struct{ rank, tag int }

func main() {
	h.Main(&h.Driver{
		Variants: 8,
		// variant/2%4: structs by rank; pointers; strings in reverse order of the text; any
		New: func(v int) h.Sys {
			switch v / 2 % 4 {
			case 3:
				un := func(e any) (int, int) {
					n := h.UnAny(e, 1<<20)
					return n >> 20, n & (1<<20 - 1)
				}
				return &sys[any]{func(a, b int) any { return h.MkAny(a<<20+b, 1<<20) }, un, func(a, b any) bool {
					x, _ := un(a)
					y, _ := un(b)
					return x < y
				}, v, map[int]*heap.Heap[any]{}}
			case 1:
				return &sys[*elem]{func(a, b int) *elem { return &elem{a, b} }, func(e *elem) (int, int) {
					if e == nil {
						return 0, 0
					}
					return e.rank, e.tag
				}, func(a, b *elem) bool { return a.rank < b.rank }, v, map[int]*heap.Heap[*elem]{}}
			case 2:
				return &sys[string]{func(a, b int) string { return fmt.Sprintf("%06d/%d", 999999-a, b) }, func(e string) (a, b int) {
					if e == "" {
						return 0, 0
					}
					fmt.Sscanf(e, "%06d/%d", &a, &b)
					return 999999 - a, b
				}, func(a, b string) bool { return a[:6] > b[:6] }, v, map[int]*heap.Heap[string]{}}
			}
			return &sys[elem]{func(a, b int) elem { return elem{a, b} }, func(e elem) (int, int) { return e.rank, e.tag },
				func(a, b elem) bool { return a.rank < b.rank }, v, map[int]*heap.Heap[elem]{}}
		},
		Record: func(r *h.Rec) {
			record(r)
			large(r)
		},
	})
}
