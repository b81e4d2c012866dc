// Conformance driver for package multimap (C17).
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/multimap"
)

var kinds = []string{"mapslice", "mapset", "avlslice", "avlset"}

type sys[K, V comparable] struct {
	mkK        func(int) K
	unK        func(K) int
	mkV        func(int) V
	unV        func(V) int
	lessK      g.LessFn[K]
	lessV      g.LessFn[V]
	inst       map[int]multimap.MultiMap[K, V]
	sortK, val map[int]bool // what the kind leaves unsorted
	eachs      int
	// Keys of tree-based multimaps and values of those with sets need not be
	// comparable with ==: what to make for these (nil: the same).
	ordK func(int) K
	ordV func(int) V
	res  h.Results
}

func (s *sys[K, V]) key(i, k int) K {
	if s.ordK != nil && s.sortK[i] {
		return s.ordK(k)
	}
	return s.mkK(k)
}

func (s *sys[K, V]) value(i, v int) V {
	if s.ordV != nil && s.val[i] {
		return s.ordV(v)
	}
	return s.mkV(v)
}

func (s *sys[K, V]) vals(i int, q []V) []any {
	l := []int{}
	for _, v := range q {
		l = append(l, s.unV(v))
	}
	if !s.val[i] {
		sort.Ints(l)
	}
	return h.L(l...)
}

// Probe reads something.
func (s *sys[K, V]) Probe(r *rand.Rand) {
	i := 1 + r.Intn(len(s.inst))
	m := s.inst[i]
	if m == nil {
		return
	}
	k := s.key(i, r.Intn(5))
	switch r.Intn(7) {
	case 0:
		m.Size()
	case 1:
		m.Dimension()
	case 2:
		m.Count(k)
	case 3:
		m.Has(k)
	case 4:
		m.Get(k)
	case 5:
		h.Iterated(r, func(f func()) { m.Each(func(K, V) { f() }) })
	case 6:
		h.Iterated(r, func(f func()) { m.EachAssociation(func(K, []V) { f() }) })
	}
}

func (s *sys[K, V]) Do(o h.Obj) any {
	i := o.I("i")
	m := s.inst[i]
	k := s.key(i, o.I("k"))
	v := s.value(i, o.I("v"))
	if x := h.Times(o); x > 0 { // without effect in the end
		had := false
		for _, y := range m.Get(k) {
			had = had || s.unV(y) == s.unV(v)
		}
		for ; x > 0; x-- {
			if had {
				m.Remove(k, v)
				m.Put(k, v)
			} else {
				m.Put(k, v)
				m.Remove(k, v)
			}
		}
	}
	switch o.S("op") {
	case "new", "put", "remove", "removeall", "clear":
		s.res.Forget() // they may be the containers' own
	}
	switch op := o.S("op"); op {
	case "new":
		s.sortK[i], s.val[i] = false, false
		switch o.S("kind") {
		case "mapslice":
			s.inst[i] = multimap.NewMapSlice[K, V]()
		case "mapset":
			s.inst[i] = multimap.NewMapSet[K](s.lessV)
			s.val[i] = true
		case "avlslice":
			s.inst[i] = multimap.NewAvlSlice[K, V](s.lessK)
			s.sortK[i] = true
		case "avlset":
			s.inst[i] = multimap.NewAvlSet(s.lessK, s.lessV)
			s.sortK[i], s.val[i] = true, true
		}
	case "put":
		m.Put(k, v)
	case "remove":
		m.Remove(k, v)
	case "removeall":
		m.RemoveAll(k)
	case "clear":
		m.Clear()
	case "dim":
		return h.L(m.Dimension())
	case "size":
		return h.L(m.Size())
	case "count":
		return h.L(m.Count(k))
	case "has":
		return h.L(h.B(m.Has(k)))
	case "get":
		q := m.Get(k)
		return h.Keep(&s.res, q, func(v V) any { return s.unV(v) }, s.vals(i, q))
	case "each":
		l := [][]int{}
		s.eachs++
		n := h.Nest{}
		m.Each(func(k K, v V) {
			l = append(l, []int{s.unK(k), s.unV(v)})
			if s.eachs%2 == 1 && n.Now() {
				in := false
				for _, x := range m.Get(k) {
					in = in || s.unV(x) == s.unV(v)
				}
				n.Check(in && m.Has(k))
				c, d, e := 0, 0, 0
				m.Each(func(K, V) { c++ })
				m.EachAssociation(func(_ K, q []V) { d += len(q); e++ })
				n.Count(c)
				n.Check(m.Size() == c && c == d && m.Dimension() == e)
			}
		})
		if !s.sortK[i] {
			sort.SliceStable(l, func(a, b int) bool { return l[a][0] < l[b][0] })
		}
		if !s.val[i] {
			for a, b := 0, 0; a < len(l); a = b {
				for b = a; b < len(l) && l[b][0] == l[a][0]; b++ {
				}
				run := l[a:b]
				sort.Slice(run, func(x, y int) bool { return run[x][1] < run[y][1] })
			}
		}
		r := []any{}
		for _, e := range l {
			r = append(r, h.L(e...))
		}
		if s.eachs%2 == 1 {
			return n.Result(r)
		}
		return r
	case "assoc":
		r := []any{}
		s.eachs++
		if s.eachs%2 == 1 {
			m.EachAssociation(func(k K, q []V) {
				got := m.Get(k)
				if len(got) != len(q) || m.Count(k) != len(q) {
					r = append(r, h.L(-7777))
				}
				c := 0
				m.EachAssociation(func(K, []V) { c++ })
				if c != m.Dimension() {
					r = append(r, h.L(-7777))
				}
			})
		}
		m.EachAssociation(func(k K, q []V) {
			r = append(r, append(h.L(s.unK(k)), s.vals(i, q)...))
			for _, bad := range h.Keep(&s.res, q, func(v V) any { return s.unV(v) }, []any{}) {
				r = append(r, bad)
			}
		})
		if !s.sortK[i] {
			sort.SliceStable(r, func(a, b int) bool { return r[a].([]any)[0].(int) < r[b].([]any)[0].(int) })
		}
		return r
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 20*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(4))
		ni := 1 + r.Intn(2)
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "new", "i": i, "kind": kinds[r.Intn(4)]})
		}
		uk, uv := r.Pick(1, 2, 5, 30, 100), r.Pick(1, 2, 4, 12, 60)
		grow, left := 0.5, 0
		var vs []int
		for st := 0; st < 160+uk && !r.Stopped(); st++ {
			if left--; left < 0 {
				left = 5 + r.Intn(60)
				grow = []float64{0.1, 0.3, 0.5, 0.7, 0.9, 1}[r.Intn(6)]
			}
			i, k, v := 1+r.Intn(ni), r.Key(uk), r.Intn(uv)
			if len(vs) > 0 && r.Intn(3) == 0 {
				v = vs[r.Intn(len(vs))]
			}
			if len(vs) < 4 {
				vs = append(vs, v)
			} else {
				vs[r.Intn(4)] = v
			}
			switch x := r.Intn(40); {
			case x < 24:
				op := "remove"
				if r.Float64() < grow {
					op = "put"
				}
				r.Do(r.Churned(h.Obj{"op": op, "i": i, "k": k, "v": v}))
			case x < 26:
				r.Do(h.Obj{"op": "removeall", "i": i, "k": k})
			case x < 27 && r.Intn(5) == 0:
				r.Do(h.Obj{"op": "clear", "i": i})
			case x < 36:
				k = r.Intn(uk+2) - 1
				for _, op := range []string{"get", "count", "has"} {
					r.Do(h.Obj{"op": op, "i": i, "k": k})
				}
			case x < 38:
				r.Do(h.Obj{"op": "dim", "i": i})
				r.Do(h.Obj{"op": "size", "i": i})
			default:
				r.Do(h.Obj{"op": []string{"each", "assoc"}[r.Intn(2)], "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			for _, op := range []string{"each", "assoc", "dim", "size"} {
				r.Do(h.Obj{"op": op, "i": i})
			}
		}
	}
}

type insts[K, V any] map[int]multimap.MultiMap[K, V]

func greater(a, b int) bool { return a > b }

func main() {
	id := func(x int) int { return x }
	h.Main(&h.Driver{
		Variants: 4,
		// 0: ints; 1: strings; 2: ints whose orders are the reverse of the numbers; 3: any
		New: func(v int) h.Sys {
			switch v % 4 {
			case 3:
				un := func(x any) int {
					switch x.(type) {
					case *string:
						return 2
					case *int, []int: // slices, pointers
						return h.UnAny(x, 1)
					}
					return h.UnCmp(x, 1)
				}
				less := func(a, b any) bool { return un(a) < un(b) }
				mk := func(x int) any {
					if x == 2 {
						return (*string)(nil)
					}
					return h.MkCmp(x, 1)
				}
				ord := func(x int) any { return h.MkAny(x, 1) }
				return &sys[any, any]{mk, un, mk, un, less, less, insts[any, any]{}, map[int]bool{}, map[int]bool{}, 0, ord, ord, h.Results{}}
			case 1:
				mk := func(x int) string { return fmt.Sprintf("%05d", x+100) }
				un := func(x string) int { n, _ := strconv.Atoi(x); return n - 100 }
				return &sys[string, string]{mk, un, mk, un, g.Less[string], g.Less[string], insts[string, string]{}, map[int]bool{}, map[int]bool{}, 0, nil, nil, h.Results{}}
			case 2:
				neg := func(x int) int { return -x }
				return &sys[int, int]{neg, neg, neg, neg, greater, greater, insts[int, int]{}, map[int]bool{}, map[int]bool{}, 0, nil, nil, h.Results{}}
			}
			return &sys[int, int]{id, id, id, id, g.Less[int], g.Less[int], insts[int, int]{}, map[int]bool{}, map[int]bool{}, 0, nil, nil, h.Results{}}
		},
		Record: record,
	})
}
