// Conformance driver for packages hashset, mapset and set (C05-C08).
package main

import (
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"
)

// A variant fixes what the abstract behaviour leaves open: the kind of every
// set, hash functions, capacities, insertion orders, and whether sets are
// used directly or through the Set wrapper.
//
//	variant%4     hash function, unless the behaviour gives one
//	variant/4%4   kinds: hash, map, hash/map alternating, map/hash
//	variant/16%2  1: plain sets, 0: wrapped
//	variant/32%2  element type: int, or one of several
const variants = 64

type sys[K comparable] struct {
	v     int
	mk    func(int) K
	un    func(K) int
	inst  map[int]set.SetOf[K]
	news  int
	eachs int
	res   h.Results
}

// elem has a part its equality does not look at.
type elem struct{ rank, tag int }

func (e elem) String() string { return strconv.Itoa(e.rank) }

func (s *sys[K]) wrap(x set.SetOf[K]) (set.Set[K], bool) {
	w, ok := x.(set.Set[K])
	return w, ok
}

// Probe reads something.
func (s *sys[K]) Probe(r *rand.Rand) {
	x := s.inst[1+r.Intn(len(s.inst))]
	if x == nil {
		return
	}
	k := s.mk(r.Intn(8))
	w, ok := s.wrap(x)
	n := 3
	if ok {
		n = 10
	}
	other := s.inst[1+r.Intn(len(s.inst))]
	if other == nil {
		other = x
	}
	switch r.Intn(n) {
	case 0:
		x.Size()
	case 1:
		h.Iterated(r, func(f func()) { x.Each(func(K) { f() }) })
	case 2:
		x.Has(k)
	case 3:
		w.Keys()
	case 4:
		w.Map()
	case 5:
		_ = w.String()
	case 6:
		w.Clone().Put(k)
	case 7:
		w.Equal(other)
	case 8:
		w.IsSubset(other)
	case 9:
		w.IsDisjoint(other)
	}
}

// view is an implementation of sets the library knows nothing of.
type view[K comparable] struct{ s set.SetOf[K] }

func (w view[K]) Put(k K)           { w.s.Put(k) }
func (w view[K]) Has(k K) bool      { return w.s.Has(k) }
func (w view[K]) Remove(k K)        { w.s.Remove(k) }
func (w view[K]) Clear()            { w.s.Clear() }
func (w view[K]) Size() int         { return w.s.Size() }
func (w view[K]) Each(fn func(k K)) { w.s.Each(fn) }

// operand passes a wrapped set sometimes as such, sometimes bare and sometimes
// through an implementation of the caller.
func (s *sys[K]) operand(i, pos int) set.SetOf[K] {
	x := s.inst[i]
	switch (s.v + i + pos) % 4 {
	case 0:
		if w, ok := s.wrap(x); ok {
			return w.SetOf
		}
	case 1:
		return view[K]{x}
	}
	return x
}

func (s *sys[K]) operands(o h.Obj) []set.SetOf[K] {
	var r []set.SetOf[K]
	for n, i := range o.Ints("os") {
		r = append(r, s.operand(i, n))
	}
	return r
}

func (s *sys[K]) vals(q []int) []K {
	r := []K{}
	for _, x := range q {
		r = append(r, s.mk(x))
	}
	// another insertion order; repetitions stay
	if n := len(r); n > 1 {
		c := (s.v + s.news) % n
		r = append(append([]K{}, r[c:]...), r[:c]...)
		if s.v%2 == 1 {
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				r[a], r[b] = r[b], r[a]
			}
		}
	}
	return r
}

// scribble writes to a slice of values the code under test was given: it is
// the caller's.
func (s *sys[K]) scribble(q []K) {
	for i := range q {
		q[i] = s.mk(77 + i)
	}
}

func (s *sys[K]) isMap(i int) bool {
	switch s.v / 4 % 4 {
	case 1:
		return true
	case 2:
		return i%2 == 0
	case 3:
		return i%2 == 1
	}
	return false
}

func (s *sys[K]) make(o h.Obj) set.SetOf[K] {
	i := o.I("i")
	s.news++
	vals := s.vals(o.Ints("vals"))
	defer s.scribble(vals)
	plain := s.v/16%2 == 1
	if s.isMap(i) {
		if plain {
			return mapset.Of(vals...)
		}
		if (s.v+s.news)%4 == 1 {
			return set.NewSet(func() set.SetOf[K] { return view[K]{mapset.New[K]()} }, vals...)
		}
		return set.NewMapset(vals...)
	}
	capacity := uint64([]int{0, 1, 8, 3}[(s.v+i)%4])
	if o.Has("cap") {
		capacity = uint64(o.I("cap"))
	}
	tab := o.Ints("h")
	hv := (s.v + i) % 4
	hash := func(k K) uint64 {
		x := s.un(k)
		if len(tab) > 0 {
			return uint64(tab[((x%len(tab))+len(tab))%len(tab)])
		}
		switch hv {
		case 1:
			return []uint64{^uint64(0), 1 << 63, 1<<63 - 1}[(s.v+i)/4%3]
		case 2:
			return uint64(x%2) * 7
		case 3:
			return g.HashInt(x)
		}
		return uint64(x)
	}
	equal := g.Equals[K]
	if s.v/32%2 == 1 && s.v/4%4 == 0 { // elements == is not for
		equal = func(a, b K) bool { return s.un(a) == s.un(b) }
	}
	if plain {
		return hashset.Of(capacity, equal, hash, vals...)
	}
	if (s.v+s.news)%4 == 1 {
		return set.NewSet(func() set.SetOf[K] { return view[K]{hashset.New(capacity, equal, hash)} }, vals...)
	}
	return set.NewHashset(capacity, equal, hash, vals...)
}

func (s *sys[K]) list(ks []K) []any {
	l := []int{}
	for _, k := range ks {
		l = append(l, s.un(k))
	}
	sort.Ints(l)
	return h.L(l...)
}

func (s *sys[K]) each(x set.SetOf[K]) []any {
	var ks []K
	s.eachs++
	n := h.Nest{}
	x.Each(func(k K) {
		ks = append(ks, k)
		if s.eachs%2 == 1 && n.Now() {
			n.Check(x.Has(k))
			c := 0
			x.Each(func(K) { c++ })
			n.Count(c)
			n.Check(x.Size() == c)
			if w, ok := s.wrap(x); ok && s.eachs%4 == 1 {
				n.Check(len(w.Keys()) == c)
				n.Check(w.Equal(x) && w.IsSubset(w.Clone()))
			}
		}
	})
	if s.eachs%2 == 1 {
		return n.Result(s.list(ks))
	}
	return s.list(ks)
}

// full makes sure set i is a Set, as the algebra needs.
func (s *sys[K]) full(i int) set.Set[K] {
	if w, ok := s.wrap(s.inst[i]); ok {
		return w
	}
	panic(h.Bad("not a wrapped set"))
}

func (s *sys[K]) Do(o h.Obj) any {
	x := s.inst[o.I("i")]
	k := o.I("k")
	for n := h.Times(o); n > 0; n-- {
		if had := x.Has(s.mk(k)); had {
			x.Remove(s.mk(k))
			x.Put(s.mk(k))
		} else {
			x.Put(s.mk(k))
			x.Remove(s.mk(k))
		}
	}
	switch op := o.S("op"); op {
	case "new":
		s.inst[o.I("i")] = s.make(o)
	case "put":
		x.Put(s.mk(k))
	case "remove":
		x.Remove(s.mk(k))
	case "putrange":
		for n := 0; n < o.I("n"); n++ {
			x.Put(s.mk(k + n))
		}
	case "removerange":
		for n := 0; n < o.I("n"); n++ {
			x.Remove(s.mk(k + n))
		}
	case "clear":
		x.Clear()
	case "has":
		return h.L(h.B(x.Has(s.mk(k))))
	case "size":
		return h.L(x.Size())
	case "each":
		return s.each(x)
	case "keys":
		if w, ok := s.wrap(x); ok {
			q := w.Keys()
			return h.Take(&s.res, q, func(k K) any { return s.un(k) }, s.list(q))
		}
		return s.each(x)
	case "map":
		w, ok := s.wrap(x)
		if !ok {
			return s.each(x)
		}
		var ks []K
		m := w.Map()
		for k := range m {
			ks = append(ks, k)
			delete(m, k) // the caller's own map
		}
		return s.list(ks)
	case "string":
		w, ok := s.wrap(x)
		if !ok {
			return s.each(x)
		}
		str := w.String()
		if len(str) < 2 || str[0] != '[' || str[len(str)-1] != ']' {
			return h.L(-1)
		}
		r := []any{}
		for _, f := range strings.Fields(str[1 : len(str)-1]) {
			n, err := strconv.Atoi(f)
			if err != nil {
				n = -1
			}
			if f == "<nil>" { // stands for 1, but comes last in the order of the text
				r = append([]any{1}, r...)
				if len(r) > 1 && r[1] == 0 {
					r[0], r[1] = 0, 1
				}
				continue
			}
			r = append(r, n)
		}
		return r
	case "clone":
		switch y := x.(type) {
		case set.Set[K]:
			s.inst[o.I("j")] = y.Clone()
		case *hashset.Set[K]:
			s.inst[o.I("j")] = y.Copy()
		default: // a plain map set has no copy of its own
			s.inst[o.I("j")] = set.NewMapset(mapKeys(x)...)
		}
	case "union":
		q := s.operands(o)
		s.inst[o.I("j")] = s.full(o.I("i")).Union(q...)
		clear(q)
	case "inter":
		q := s.operands(o)
		s.inst[o.I("j")] = s.full(o.I("i")).Intersection(q...)
		clear(q)
	case "diff":
		q := s.operands(o)
		s.inst[o.I("j")] = s.full(o.I("i")).Difference(q...)
		clear(q)
	case "sym":
		q := s.operands(o)
		s.inst[o.I("j")] = s.full(o.I("i")).SymmetricDifference(q...)
		clear(q)
	case "cunion":
		q := s.vals(o.Ints("vals"))
		s.inst[o.I("j")] = s.full(o.I("i")).ConstUnion(q...)
		s.scribble(q)
	case "cinter":
		q := s.vals(o.Ints("vals"))
		s.inst[o.I("j")] = s.full(o.I("i")).ConstIntersection(q...)
		s.scribble(q)
	case "cdiff":
		q := s.vals(o.Ints("vals"))
		s.inst[o.I("j")] = s.full(o.I("i")).ConstDifference(q...)
		s.scribble(q)
	case "csym":
		q := s.vals(o.Ints("vals"))
		s.inst[o.I("j")] = s.full(o.I("i")).ConstSymmetricDifference(q...)
		s.scribble(q)
	case "iunion":
		return s.each(s.full(o.I("i")).InPlaceUnion(s.operands(o)...))
	case "iinter":
		return s.each(s.full(o.I("i")).InPlaceIntersection(s.operands(o)...))
	case "idiff":
		return s.each(s.full(o.I("i")).InPlaceDifference(s.operands(o)...))
	case "eq":
		return h.L(h.B(s.full(o.I("i")).Equal(s.operand(o.I("j"), 0))))
	case "sub":
		return h.L(h.B(s.full(o.I("i")).IsSubset(s.operand(o.I("j"), 0))))
	case "sup":
		return h.L(h.B(s.full(o.I("i")).IsSuperset(s.operand(o.I("j"), 0))))
	case "psub":
		return h.L(h.B(s.full(o.I("i")).IsProperSubset(s.operand(o.I("j"), 0))))
	case "psup":
		return h.L(h.B(s.full(o.I("i")).IsProperSuperset(s.operand(o.I("j"), 0))))
	case "disj":
		return h.L(h.B(s.full(o.I("i")).IsDisjoint(s.operand(o.I("j"), 0))))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func mapKeys[K comparable](x set.SetOf[K]) []K {
	var ks []K
	x.Each(func(k K) { ks = append(ks, k) })
	return ks
}

// some returns random elements below u, possibly repeated.
func some(r *h.Rec, u, max int) []int {
	l := []int{}
	for n := r.Intn(max + 1); n > 0; n-- {
		l = append(l, r.Intn(u))
	}
	return l
}

func newSet(r *h.Rec, i, u, max int) h.Obj {
	o := h.Obj{"op": "new", "i": i, "vals": some(r, u, max)}
	if r.Intn(2) == 0 {
		tab := []int{}
		n := r.Pick(1, 2, 5, u)
		for x := 0; x < n; x++ {
			tab = append(tab, r.Pick(0, -1, -2, 7, 8, r.Intn(2*u)))
		}
		o["h"], o["cap"] = tab, r.Pick(0, 1, 2, 5, 8, 64)
	}
	return o
}

func recordSets(r *h.Rec) {
	for hist := 0; hist < 14*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(variants))
		u := r.Pick(3, 9, 40, 150)
		r.Churn = 1
		if u > 60 {
			r.Churn = 2
		}
		ni := 1 + r.Intn(2)
		for i := 1; i <= ni; i++ {
			r.Do(newSet(r, i, u, r.Pick(0, 3, u)))
		}
		grow, left := 0.5, 0
		i := 1
		for st := 0; st < 220+u; st++ {
			if left--; left < 0 {
				left = 5 + r.Intn(40+u)
				grow = []float64{0, 0.2, 0.5, 0.8, 0.95, 1}[r.Intn(6)]
			}
			if r.Intn(3) == 0 {
				i = 1 + r.Intn(ni)
			}
			k := r.Key(u)
			switch x := r.Intn(20); {
			case x < 12:
				if r.Float64() < grow {
					r.Do(r.Churned(h.Obj{"op": "put", "i": i, "k": k}))
				} else if r.Intn(40) == 0 {
					r.Do(h.Obj{"op": "clear", "i": i})
				} else {
					r.Do(r.Churned(h.Obj{"op": "remove", "i": i, "k": k}))
				}
			case x < 17:
				r.Do(h.Obj{"op": "has", "i": i, "k": r.Key(u+2) - 1})
			case x < 18:
				r.Do(h.Obj{"op": "size", "i": i})
			default:
				op := []string{"each", "keys", "map", "string"}[r.Intn(4)]
				if op == "string" && u > 9 {
					op = "each"
				}
				r.Do(h.Obj{"op": op, "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			r.Do(h.Obj{"op": "each", "i": i})
			r.Do(h.Obj{"op": "size", "i": i})
		}
	}
	for hist := 0; hist < 3*r.Scale && !r.Stopped(); hist++ {
		// Removing from heavily colliding tables takes cubic time.
		v := r.Intn(variants)
		r.Reset(v)
		u := 2500
		o := newSet(r, 1, u, 500)
		if o.Has("h") && len(o.Ints("h")) < u || !o.Has("h") && (v+1)%4 != 0 && (v+1)%4 != 3 {
			u = 250
			o = newSet(r, 1, u, 100)
		}
		r.Do(o)
		for st := 0; st < 25; st++ {
			op := "putrange"
			if r.Intn(2) == 0 {
				op = "removerange"
			}
			k := r.Intn(u)
			r.Do(h.Obj{"op": op, "i": 1, "k": k, "n": r.Pick(1, 5, 50, 400)})
			r.Do(h.Obj{"op": "size", "i": 1})
			for q := 0; q < 5; q++ {
				r.Do(h.Obj{"op": "has", "i": 1, "k": k + r.Intn(500) - 100})
			}
		}
		r.Do(h.Obj{"op": "each", "i": 1})
		r.Do(h.Obj{"op": "removerange", "i": 1, "k": 3, "n": 4000})
		r.Do(h.Obj{"op": "each", "i": 1})
		r.Do(h.Obj{"op": "size", "i": 1})
	}
}

func recordClones(r *h.Rec) {
	for hist := 0; hist < 14*r.Scale && !r.Stopped(); hist++ {
		v := r.Intn(variants)
		r.Reset(v)
		u, ni, max := r.Pick(2, 4, 9, 50, 150), 1, 2+r.Intn(4)
		r.Do(newSet(r, 1, u, r.Pick(0, 2, u)))
		for st := 0; st < 120; st++ {
			i := 1 + r.Intn(ni)
			switch x := r.Intn(12); {
			case x < 4:
				for n := r.Pick(1, 1, 1, u/4); n > 0; n-- {
					r.Do(h.Obj{"op": "put", "i": i, "k": r.Key(u)})
				}
			case x < 7:
				r.Do(h.Obj{"op": "remove", "i": i, "k": r.Key(u)})
			case x < 8 && r.Intn(3) == 0:
				r.Do(h.Obj{"op": "clear", "i": i})
			case x < 10:
				j := 1 + r.Intn(max)
				if j > ni {
					ni++
					j = ni
				}
				if i != j {
					r.Do(h.Obj{"op": "clone", "i": i, "j": j})
				}
			default:
				for j := 1; j <= ni; j++ {
					r.Do(h.Obj{"op": "each", "i": j})
					r.Do(h.Obj{"op": "size", "i": j})
				}
			}
		}
		for j := 1; j <= ni; j++ {
			r.Do(h.Obj{"op": "each", "i": j})
			r.Do(h.Obj{"op": "size", "i": j})
		}
	}
}

func recordAlgebra(r *h.Rec) {
	algebra := []string{"union", "inter", "diff", "sym", "cunion", "cinter", "cdiff", "csym", "iunion", "iinter", "idiff"}
	rels := []string{"eq", "sub", "sup", "psub", "psup", "disj"}
	for hist := 0; hist < 30*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(variants) &^ 16)
		u := r.Pick(2, 4, 9, 40, 200)
		ni := 4
		for i := 1; i <= ni; i++ {
			r.Do(newSet(r, i, u, r.Pick(1, u/2, u, 2*u)))
		}
		for st := 0; st < 40; st++ {
			i := 1 + r.Intn(ni)
			if r.Focus == "rel" {
				// Make close relatives: equal, one more, one less.
				j := 1 + r.Intn(ni)
				if j != i && r.Intn(3) > 0 {
					r.Do(h.Obj{"op": "clone", "i": i, "j": j})
					if r.Intn(2) == 0 {
						r.Do(h.Obj{"op": []string{"put", "remove"}[r.Intn(2)], "i": j, "k": r.Intn(u)})
					}
				}
				for n := 0; n < 2; n++ {
					r.Do(h.Obj{"op": rels[r.Intn(6)], "i": i, "j": j})
					r.Do(h.Obj{"op": rels[r.Intn(6)], "i": j, "j": i})
				}
			} else {
				op := algebra[r.Intn(len(algebra))]
				o := h.Obj{"op": op, "i": i, "j": 1 + r.Intn(ni)}
				if op[0] == 'c' {
					o["vals"] = some(r, u, u)
				} else {
					os := []int{}
					for n := r.Pick(0, 1, 1, 1, 2, 2, 3, 5); n > 0; n-- {
						os = append(os, 1+r.Intn(ni))
					}
					o["os"] = os
				}
				r.Do(o)
				if r.Intn(3) == 0 {
					r.Do(h.Obj{"op": []string{"put", "remove"}[r.Intn(2)], "i": 1 + r.Intn(ni), "k": r.Intn(u)})
				}
				if r.Intn(6) == 0 {
					j := 1 + r.Intn(ni)
					r.Do(newSet(r, j, u, r.Pick(1, u/2, u)))
				}
			}
			for j := 1; j <= ni; j++ {
				r.Do(h.Obj{"op": "each", "i": j})
			}
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: variants,
		Skip: func(focus string, v int) bool {
			switch focus {
			case "sets":
				// the hash function comes with the behaviour; one kind at a time
				return v%4 > 1 || v/4%4 > 1
			case "clones":
				return v%4 > 0 || v/4%4 > 1 || v/4%4 == 1 && v/16%2 == 1
			}
			return v/16%2 == 1 || v/32%2 == 1 && v%4 != 3
		},
		New: func(v int) h.Sys {
			if v/16%4 == 3 && v/4%4 == 0 { // plain hash sets: elements that cannot be compared
				kk := h.AnyKeys(1)
				return &sys[any]{v, kk.Mk, kk.Un, map[int]set.SetOf[any]{}, 0, 0, h.Results{}}
			}
			if v/32%2 == 1 && v/4%4 == 0 { // wrapped hash sets: equal elements that can be told apart
				n := 0
				return &sys[elem]{v, func(k int) elem { n++; return elem{k, n} }, func(e elem) int { return e.rank }, map[int]set.SetOf[elem]{}, 0, 0, h.Results{}}
			}
			if v/32%2 == 1 && v/4%2 == 1 {
				return &sys[any]{v, func(k int) any {
					switch {
					case k == 1:
						return nil
					case k%2 == 1:
						return k
					}
					return strconv.Itoa(k)
				}, func(k any) int {
					switch k := k.(type) {
					case nil:
						return 1
					case int:
						return k
					case string:
						n, _ := strconv.Atoi(k)
						return n
					}
					return -98765
				}, map[int]set.SetOf[any]{}, 0, 0, h.Results{}}
			}
			if v/32%2 == 1 {
				return &sys[string]{v, strconv.Itoa, func(s string) int { n, _ := strconv.Atoi(s); return n }, map[int]set.SetOf[string]{}, 0, 0, h.Results{}}
			}
			return &sys[int]{v, func(k int) int { return k }, func(k int) int { return k }, map[int]set.SetOf[int]{}, 0, 0, h.Results{}}
		},
		Record: func(r *h.Rec) {
			switch r.Focus {
			case "sets":
				recordSets(r)
			case "clones":
				recordClones(r)
			default:
				recordAlgebra(r)
			}
		},
	})
}
