// Conformance driver for package ulist (C25, C26).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/ulist"
)

type key struct{ i, t int }

type sys[V any] struct {
	mk   func(int) V
	un   func(V) int
	inst map[int]*ulist.UList[V]
	it   map[key]*ulist.UListIter[V]
}

func (s *sys[V]) cur(it *ulist.UListIter[V]) []any {
	if !it.IsValid() {
		return h.L(0, 0)
	}
	return h.L(1, s.un(it.Get()))
}

func (s *sys[V]) Do(o h.Obj) any {
	i := o.I("i")
	x := s.inst[i]
	k := key{i, o.I("t")}
	it := s.it[k]
	for n := h.Times(o); n > 0; n-- { // in and out again
		switch o.S("op") {
		case "pushback":
			x.PushBack(s.mk(o.I("v")))
			x.Remove(x.End())
		case "pushfront":
			x.PushFront(s.mk(o.I("v")))
			x.Remove(x.Begin())
		case "addbefore": // the iterator goes to the new element, and back
			x.AddBefore(it, s.mk(o.I("v")))
			x.Remove(it)
		case "addafter":
			x.AddAfter(it, s.mk(o.I("v")))
			x.Remove(it)
			it.Prev()
		}
	}
	const limit = 1 << 16 // longer walks are cut off
	switch op := o.S("op"); op {
	case "new":
		s.inst[i] = ulist.New[V](o.I("e"))
	case "pushback":
		x.PushBack(s.mk(o.I("v")))
	case "pushfront":
		x.PushFront(s.mk(o.I("v")))
	case "pushbackn":
		for n := 0; n < o.I("n"); n++ {
			x.PushBack(s.mk(o.I("v") + n))
		}
	case "pushfrontn":
		for n := 0; n < o.I("n"); n++ {
			x.PushFront(s.mk(o.I("v") + n))
		}
	case "moven":
		for n := o.I("n"); n > 0; n-- {
			it.Next()
		}
		for n := o.I("n"); n < 0; n++ {
			it.Prev()
		}
		return s.cur(it)
	case "removen":
		for n := o.I("n"); n > 0 && it.IsValid(); n-- {
			x.Remove(it)
		}
		return s.cur(it)
	case "size":
		return h.L(x.Size())
	case "walk":
		r := []any{}
		for it := x.Begin(); it.IsValid() && len(r) < limit; it.Next() {
			r = append(r, s.un(it.Get()))
		}
		return r
	case "back":
		r := []any{}
		for it := x.End(); it.IsValid() && len(r) < limit; it.Prev() {
			r = append(r, s.un(it.Get()))
		}
		return r
	case "begin":
		s.it[k] = x.Begin()
		return s.cur(s.it[k])
	case "end":
		s.it[k] = x.End()
		return s.cur(s.it[k])
	case "cur":
		return s.cur(it)
	case "next":
		b := it.Next()
		return append(h.L(h.B(b)), s.cur(it)...)
	case "prev":
		b := it.Prev()
		return append(h.L(h.B(b)), s.cur(it)...)
	case "addafter":
		x.AddAfter(it, s.mk(o.I("v")))
		return s.cur(it)
	case "addbefore":
		x.AddBefore(it, s.mk(o.I("v")))
		return s.cur(it)
	case "remove":
		x.Remove(it)
		return s.cur(it)
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// Probe reads some lists, and moves iterators that are not part of the behaviour.
func (s *sys[V]) Probe(r *rand.Rand) {
	for i := 1; i <= 2; i++ {
		x := s.inst[i]
		if x == nil || r.Intn(2) == 0 {
			continue
		}
		x.Size()
		it := x.Begin()
		if r.Intn(2) == 0 {
			it = x.End()
		}
		for n := r.Intn(8); n > 0; n-- {
			s.cur(it)
			if r.Intn(2) == 0 {
				it.Next()
			} else {
				it.Prev()
			}
		}
	}
}

// large records lists of many blocks, which are filled and thinned out again
// and again, so that neighbouring blocks are full, sparse or anything between.
func large(r *h.Rec) {
	r.Reset(r.Intn(3))
	e := r.Pick(3, 6, 8, 9, 12, 16, 24, 32, 64, 3+r.Intn(20))
	r.Do(h.Obj{"op": "new", "i": 1, "e": e})
	n, pos, v := 0, -1, 1 // pos: of the iterator, -1 when there is none
	do := func(op string, k int) {
		o := h.Obj{"op": op, "i": 1, "t": 1, "n": k}
		switch op {
		case "moven":
			pos = max(0, min(n+1, pos+k))
		case "removen":
			n -= k
			if n == 0 {
				pos = -1
			}
		}
		r.Do(o)
	}
	for round := 0; round < 6; round++ {
		if room := 12*e + 100 - n; room > 0 {
			for k := r.Pick(1, 2, 3); k > 0; k-- {
				c := 1 + r.Intn(room)
				r.Do(h.Obj{"op": []string{"pushbackn", "pushfrontn"}[r.Intn(2)], "i": 1, "n": c, "v": v})
				n += c
				v += c
			}
		}
		op := []string{"begin", "end"}[r.Intn(2)]
		r.Do(h.Obj{"op": op, "i": 1, "t": 1})
		pos = 1
		if op == "end" {
			pos = n
		}
		// thin out: keep a few, remove about the rest of a block
		keep := 1 + r.Intn(min(4, e))
		add := r.Pick(0, 0, 1, 3)
		for pass := r.Pick(1, 1, 2); pass > 0 && n > 0; pass-- {
			if op == "end" { // from the back, an iterator removes towards the end
				for pos > 0 && n > 1 && r.Intn(60) > 0 {
					do("moven", -r.Pick(e-1, e, e-keep, 1+r.Intn(e)))
					if pos >= 1 {
						do("removen", min(n+1-pos, r.Pick(1, e-keep, e-1, 1+r.Intn(e))))
					}
					if pos == n+1 {
						do("moven", -1)
					}
				}
			} else {
				for pos >= 1 && pos <= n && r.Intn(60) > 0 {
					do("removen", min(n+1-pos, max(1, r.Pick(e-keep, e-keep, e-1, e, 1+r.Intn(e)))))
					if pos < 1 || pos > n {
						break
					}
					for a := r.Intn(add + 1); a > 0; a-- {
						op := r.Pick(0, 1)
						r.Do(h.Obj{"op": []string{"addafter", "addbefore"}[op], "i": 1, "t": 1, "v": v})
						v++
						n++
						pos += 1 - op
					}
					do("moven", r.Pick(keep, keep, 1, 1+r.Intn(e)))
				}
			}
			if pos < 0 {
				break
			}
			r.Do(h.Obj{"op": "size", "i": 1})
			r.Do(h.Obj{"op": "walk", "i": 1})
			r.Do(h.Obj{"op": "back", "i": 1})
			op = []string{"begin", "end"}[r.Intn(2)]
			r.Do(h.Obj{"op": op, "i": 1, "t": 1})
			pos = 1
			if op == "end" {
				pos = n
			}
		}
		// and single steps around
		if n > 0 {
			r.Do(h.Obj{"op": "begin", "i": 1, "t": 1})
			pos = 1
			do("moven", r.Intn(n))
		}
		for k := r.Intn(60); k > 0 && pos >= 0 && n > 0; k-- {
			switch in := pos >= 1 && pos <= n; {
			case in && r.Intn(2) == 0:
				do("removen", 1)
			case in && r.Intn(8) == 0:
				op := r.Pick(0, 1)
				r.Do(h.Obj{"op": []string{"addafter", "addbefore"}[op], "i": 1, "t": 1, "v": v})
				v++
				n++
				pos += 1 - op
			default:
				do("moven", r.Pick(1, -1, 1, -1, 2, -2, e, -e, 2*e, -2*e))
			}
		}
		r.Do(h.Obj{"op": "size", "i": 1})
		r.Do(h.Obj{"op": "walk", "i": 1})
		r.Do(h.Obj{"op": "back", "i": 1})
	}
}

func record(r *h.Rec) {
	for k := 0; k < 5*r.Scale && !r.Stopped(); k++ {
		large(r)
	}
	for hist := 0; hist < 14*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		e := r.Pick(1, 2, 3, 4, 5, 8, 16, 64)
		ni := 1 + r.Intn(2)
		const gone = -1
		n, pos, live := []int{0, 0, 0}, []int{0, 0, 0}, []bool{false, false, false}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "new", "i": i, "e": e})
		}
		v := 0
		grow := 0.5
		for st := 0; st < 260; st++ {
			if st%40 == 0 {
				grow = []float64{0.15, 0.45, 0.6, 0.95}[r.Intn(4)]
			}
			i := 1 + r.Intn(ni)
			v++
			valid := live[i] && pos[i] >= 1 && pos[i] <= n[i]
			move := func(op string) {
				r.Do(h.Obj{"op": op, "i": i, "t": 1})
				if op == "next" {
					pos[i] = min(pos[i]+1, n[i]+1)
				} else {
					pos[i] = max(pos[i]-1, 0)
				}
			}
			switch x := r.Intn(20); {
			case x < 3 && r.Float64() < grow:
				r.Do(r.Churned(h.Obj{"op": []string{"pushback", "pushfront"}[r.Intn(2)], "i": i, "v": v}))
				n[i]++
				live[i] = false
			case x < 11 && valid:
				for k := r.Pick(1, 1, 2, e, e+1); k > 0 && pos[i] >= 1 && pos[i] <= n[i]; k-- {
					if r.Float64() < grow {
						v++
						op := r.Pick(0, 1)
						r.Do(r.Churned(h.Obj{"op": []string{"addafter", "addbefore"}[op], "i": i, "t": 1, "v": v}))
						n[i]++
						pos[i] += 1 - op
					} else {
						r.Do(h.Obj{"op": "remove", "i": i, "t": 1})
						n[i]--
						if n[i] == 0 {
							pos[i] = gone
						}
					}
				}
			case x < 16 && live[i] && pos[i] != gone:
				op := []string{"next", "prev"}[r.Intn(2)]
				for k := r.Pick(1, 1, 2, e, n[i]+2); k > 0; k-- {
					move(op)
				}
				if r.Intn(2) == 0 {
					r.Do(h.Obj{"op": "cur", "i": i, "t": 1})
				}
			case x < 18 || !live[i]:
				op := []string{"begin", "end"}[r.Intn(2)]
				r.Do(h.Obj{"op": op, "i": i, "t": 1})
				live[i], pos[i] = true, 1
				if op == "end" {
					pos[i] = n[i]
				}
				if n[i] == 0 {
					pos[i] = gone
				} else {
					for k := r.Intn(n[i] + 1); k > 0; k-- {
						move([]string{"next", "prev"}[h.B(op == "end")])
					}
				}
			default:
				r.Do(h.Obj{"op": "size", "i": i})
				r.Do(h.Obj{"op": "walk", "i": i})
				r.Do(h.Obj{"op": "back", "i": i})
			}
			if st > 255 {
				r.Do(h.Obj{"op": "size", "i": i})
				r.Do(h.Obj{"op": "walk", "i": i})
				r.Do(h.Obj{"op": "back", "i": i})
			}
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 1 {
				return &sys[string]{func(x int) string { return strconv.Itoa(x) }, func(x string) int {
					n, err := strconv.Atoi(x)
					if err != nil {
						return -99
					}
					return n
				}, map[int]*ulist.UList[string]{}, map[key]*ulist.UListIter[string]{}}
			}
			if v == 2 {
				return &sys[any]{func(x int) any { return h.MkAny(x, 2) }, func(x any) int { return h.UnAny(x, 2) }, map[int]*ulist.UList[any]{}, map[key]*ulist.UListIter[any]{}}
			}
			return &sys[int]{func(x int) int { return x }, func(x int) int { return x }, map[int]*ulist.UList[int]{}, map[key]*ulist.UListIter[int]{}}
		},
		Record: record,
	})
}
