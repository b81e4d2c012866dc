// Conformance driver for package bimap (C18, C05).
package main

import (
	"math/rand"
	"sort"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/bimap"
)

type sys[K, V comparable] struct {
	mkK   func(int) K
	unK   func(K) int
	mkV   func(int) V
	unV   func(V) int
	inst  map[int]*bimap.Bimap[K, V]
	eachs int
}

func (s *sys[K, V]) each(b *bimap.Bimap[K, V]) []any {
	l := [][]int{}
	s.eachs++
	n := h.Nest{}
	b.Each(func(k K, v V) {
		l = append(l, []int{s.unK(k), s.unV(v)})
		if s.eachs%2 == 1 && n.Now() {
			x, ok := b.GetForward(k)
			y, ok2 := b.GetReverse(v)
			n.Check(ok && ok2 && x == v && y == k && b.ContainsForward(k) && b.ContainsReverse(v))
			c := 0
			b.Each(func(K, V) { c++ })
			n.Count(c)
			n.Check(b.Len() == c)
		}
	})
	sort.Slice(l, func(x, y int) bool { return l[x][0] < l[y][0] || l[x][0] == l[y][0] && l[x][1] < l[y][1] })
	r := []any{}
	for _, e := range l {
		r = append(r, h.L(e...))
	}
	if s.eachs%2 == 1 {
		return n.Result(r)
	}
	return r
}

// Probe reads something.
func (s *sys[K, V]) Probe(r *rand.Rand) {
	b := s.inst[1+r.Intn(len(s.inst))]
	if b == nil {
		return
	}
	k, v := s.mkK(r.Intn(5)), s.mkV(r.Intn(5))
	switch r.Intn(6) {
	case 0:
		b.Len()
	case 1:
		h.Iterated(r, func(f func()) { b.Each(func(K, V) { f() }) })
	case 2:
		b.GetForward(k)
	case 3:
		b.GetReverse(v)
	case 4:
		b.ContainsForward(k)
	case 5:
		b.ContainsReverse(v)
	}
}

func (s *sys[K, V]) Do(o h.Obj) any {
	b := s.inst[o.I("i")]
	k := s.mkK(o.I("k"))
	v := s.mkV(o.I("v"))
	for x := h.Times(o); x > 0; x-- { // without effect in the end
		switch op := o.S("op"); op {
		case "add":
			b.Add(k, v)
			if x%2 == 0 {
				b.RemoveForward(k)
			} else {
				b.RemoveReverse(v)
			}
		case "rmf":
			if y, ok := b.GetForward(k); ok {
				b.RemoveForward(k)
				b.Add(k, y)
			} else {
				b.RemoveForward(k)
			}
		case "rmr":
			if y, ok := b.GetReverse(v); ok {
				b.RemoveReverse(v)
				b.Add(y, v)
			} else {
				b.RemoveReverse(v)
			}
		}
	}
	switch op := o.S("op"); op {
	case "new":
		s.inst[o.I("i")] = &bimap.Bimap[K, V]{}
	case "of":
		m := map[K]V{}
		for _, e := range o.IntLists("vals") {
			m[s.mkK(e[0])] = s.mkV(e[1])
		}
		x := bimap.Of(m)
		for k := range m {
			m[k] = s.mkV(-3)
		}
		m[s.mkK(-2)] = s.mkV(-2)
		s.inst[o.I("i")] = &x
		return s.each(&x)
	case "add":
		b.Add(k, v)
	case "rmf":
		b.RemoveForward(k)
	case "rmr":
		b.RemoveReverse(v)
	case "clear":
		b.Clear()
	case "copy":
		x := b.Copy()
		s.inst[o.I("j")] = &x
	case "len":
		return h.L(b.Len())
	case "each":
		return s.each(b)
	case "getf":
		x, ok := b.GetForward(k)
		return h.L(s.unV(x), h.B(ok))
	case "getr":
		x, ok := b.GetReverse(v)
		return h.L(s.unK(x), h.B(ok))
	case "hasf":
		return h.L(h.B(b.ContainsForward(k)))
	case "hasr":
		return h.L(h.B(b.ContainsReverse(v)))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 20*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		u := r.Pick(2, 4, 9, 40, 100, 400)
		ni, max := 1+r.Intn(2), 2
		if r.Focus == "copies" {
			max = 2 + r.Intn(3)
		}
		for i := 1; i <= ni; i++ {
			if r.Intn(2) == 0 {
				r.Do(h.Obj{"op": "new", "i": i})
				continue
			}
			vals := []any{}
			seen := map[int]bool{}
			for n := r.Pick(0, 1, 3, u, 2*u); n > 0; n-- {
				if k := r.Intn(u); !seen[k] {
					seen[k] = true
					vals = append(vals, h.L(k, r.Intn(u)))
				}
			}
			r.Do(h.Obj{"op": "of", "i": i, "vals": vals})
		}
		grow, left := 14, 0
		for st := 0; st < 180+u; st++ {
			if left--; left < 0 {
				left, grow = 5+r.Intn(40+u), r.Pick(2, 14, 14, 18, 21, 22)
			}
			i := 1 + r.Intn(ni)
			switch x := r.Intn(40); {
			case x < grow:
				r.Do(r.Churned(h.Obj{"op": "add", "i": i, "k": r.Key(u), "v": r.Key(u)}))
			case x < (grow+22)/2:
				r.Do(r.Churned(h.Obj{"op": "rmf", "i": i, "k": r.Key(u)}))
			case x < 22:
				r.Do(r.Churned(h.Obj{"op": "rmr", "i": i, "v": r.Key(u)}))
			case x < 23 && r.Intn(3) == 0:
				r.Do(h.Obj{"op": "clear", "i": i})
			case x < 26 && r.Focus == "copies":
				j := 1 + r.Intn(max)
				if j > ni {
					ni++
					j = ni
				}
				if i != j {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
				}
			case x < 34:
				k := r.Key(u + 1)
				r.Do(h.Obj{"op": []string{"getf", "hasf"}[r.Intn(2)], "i": i, "k": k})
				r.Do(h.Obj{"op": []string{"getr", "hasr"}[r.Intn(2)], "i": i, "v": k})
			default:
				for j := 1; j <= ni; j++ {
					if r.Intn(u) < 40 {
						r.Do(h.Obj{"op": "each", "i": j})
					}
					r.Do(h.Obj{"op": "len", "i": j})
				}
			}
		}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "each", "i": i})
			r.Do(h.Obj{"op": "len", "i": i})
			for k := 0; k < u; k++ {
				r.Do(h.Obj{"op": "getf", "i": i, "k": k})
				r.Do(h.Obj{"op": "getr", "i": i, "v": k})
			}
		}
	}
}

func main() {
	id := func(x int) int { return x }
	str := func(x int) string {
		if x == 0 {
			return ""
		}
		return strconv.Itoa(x)
	}
	uns := func(x string) int { n, _ := strconv.Atoi(x); return n }
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 1 {
				return &sys[string, int]{str, uns, id, id, map[int]*bimap.Bimap[string, int]{}, 0}
			}
			if v == 2 {
				return &sys[any, any]{func(x int) any { return h.MkCmp(x, 0) }, func(x any) int { return h.UnCmp(x, 0) }, func(x int) any { return h.MkCmp(x, 0) }, func(x any) int { return h.UnCmp(x, 0) }, map[int]*bimap.Bimap[any, any]{}, 0}
			}
			return &sys[int, int]{id, id, id, id, map[int]*bimap.Bimap[int, int]{}, 0}
		},
		Record: record,
	})
}
