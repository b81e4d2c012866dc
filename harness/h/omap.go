package h

import (
	"fmt"
	"math/rand"
)

// OMap is the part of the API the ordered maps have in common.
type OMap[K any] interface {
	OMap0[K]
	Each(func(K, int))
}

// OMap0 is what all maps have.
type OMap0[K any] interface {
	Put(K, int)
	Get(K) (int, bool)
	Remove(K)
	Size() int
}

// Tagged is a key with parts the order does not look at.
type Tagged struct{ Rank, Tag int }

// KeyKind relates abstract keys (integers) to keys of a real type.
type KeyKind[K any] struct {
	Mk   func(k int) K
	Un   func(K) int
	Less func(a, b K) bool
}

// IntKeys: the natural order of ints.
func IntKeys() KeyKind[int] {
	return KeyKind[int]{func(k int) int { return k }, func(k int) int { return k }, func(a, b int) bool { return a < b }}
}

// DescKeys: ints in descending order.
func DescKeys() KeyKind[int] {
	return KeyKind[int]{func(k int) int { return 1000 - 3*k }, func(k int) int { return (1000 - k) / 3 }, func(a, b int) bool { return a > b }}
}

// TaggedKeys: distinguishable keys of equal rank.
func TaggedKeys() KeyKind[Tagged] {
	n := 0
	return KeyKind[Tagged]{func(k int) Tagged { n++; return Tagged{k, n} }, func(k Tagged) int { return k.Rank }, func(a, b Tagged) bool { return a.Rank < b.Rank }}
}

// StrKeys: strings in lexical order; -1 is the empty string.
func StrKeys() KeyKind[string] {
	return KeyKind[string]{func(k int) string {
		if k == -1 {
			return ""
		}
		return fmt.Sprintf("%011d", k+5000000)
	}, func(s string) int {
		n := 4999999
		fmt.Sscanf(s, "%d", &n)
		return n - 5000000
	}, func(a, b string) bool { return a < b }}
}

// OMapSys runs ordered-map steps on instances made by New.
type OMapSys[K any] struct {
	KK    KeyKind[K]
	Make  func(less func(a, b K) bool) OMap[K]
	Grp   int // every abstract key stands for Grp consecutive real keys (0: 1)
	Inst  map[int]OMap[K]
	Calls int // calls of less
	keys  []int
	eachs int
}

// NewOMapSys builds the system.
func NewOMapSys[K any](kk KeyKind[K], grp int, mk func(less func(a, b K) bool) OMap[K]) *OMapSys[K] {
	return &OMapSys[K]{KK: kk, Make: mk, Grp: grp, Inst: map[int]OMap[K]{}}
}

func (s *OMapSys[K]) less(a, b K) bool { s.Calls++; return s.KK.Less(a, b) }

// Probe reads something.
func (s *OMapSys[K]) Probe(r *rand.Rand) {
	if len(s.keys) == 0 {
		return
	}
	m := s.Inst[1]
	g := s.Grp
	if g == 0 {
		g = 1
	}
	switch r.Intn(8) {
	case 0:
		m.Size()
	case 1:
		Iterated(r, func(f func()) { m.Each(func(K, int) { f() }) })
	default:
		m.Get(s.KK.Mk((s.keys[r.Intn(len(s.keys))]+r.Intn(5)/3)*g + r.Intn(g)))
	}
}

// Do executes one step.
func (s *OMapSys[K]) Do(o Obj) any {
	m := s.Inst[o.I("i")]
	g := s.Grp
	if Replaying && o.Has("k") {
		s.keys = append(s.keys, o.I("k"))
	}
	switch o.S("op") {
	case "new":
		s.Inst[o.I("i")] = s.Make(s.less)
	case "put":
		if g == 0 {
			for x := Times(o); x > 0; x-- {
				m.Remove(s.KK.Mk(o.I("k")))
				m.Put(s.KK.Mk(o.I("k")), o.I("v"))
			}
			m.Put(s.KK.Mk(o.I("k")), o.I("v"))
			return nil
		}
		for x := 0; x < g; x++ {
			m.Put(s.KK.Mk(o.I("k")*g+x), o.I("v"))
		}
	case "putrange":
		for x := 0; x < o.I("n"); x++ {
			m.Put(s.KK.Mk(o.I("k")+x), o.I("v")+x)
		}
	case "putdown": // the same keys, greatest first
		for x := o.I("n") - 1; x >= 0; x-- {
			m.Put(s.KK.Mk(o.I("k")+x), o.I("v")+x)
		}
	case "remove":
		if g == 0 {
			for x := Times(o); x > 0; x-- {
				m.Put(s.KK.Mk(o.I("k")), -x)
				m.Remove(s.KK.Mk(o.I("k")))
			}
			m.Remove(s.KK.Mk(o.I("k")))
			return nil
		}
		for x := 0; x < g; x++ {
			m.Remove(s.KK.Mk(o.I("k")*g + x))
		}
	case "removerange":
		for x := 0; x < o.I("n"); x++ {
			m.Remove(s.KK.Mk(o.I("k") + x))
		}
	case "get":
		if g == 0 {
			for x := Times(o); x > 0; x-- {
				m.Get(s.KK.Mk(o.I("k") + x%2))
			}
			return GetRes(m.Get(s.KK.Mk(o.I("k"))))
		}
		var first []any
		for x := 0; x < g; x++ {
			r := GetRes(m.Get(s.KK.Mk(o.I("k")*g + x)))
			if x == 0 {
				first = r
			} else if !Equal(first, r) {
				return L(-1, x) // the keys of one group disagree
			}
		}
		return first
	case "size":
		if g == 0 {
			return L(m.Size())
		}
		if m.Size()%g != 0 {
			return L(-1, m.Size())
		}
		return L(m.Size() / g)
	case "each":
		if g == 0 {
			r := []any{}
			s.eachs++
			if s.eachs%2 == 0 {
				m.Each(func(k K, v int) { r = append(r, L(s.KK.Un(k), v)) })
				return r
			}
			n := Nest{}
			m.Each(func(k K, v int) {
				r = append(r, L(s.KK.Un(k), v))
				if n.Now() {
					x, ok := m.Get(k)
					n.Check(ok && x == v)
					n.Check(m.Size() > n.at-1)
					c := 0
					m.Each(func(K, int) { c++ })
					n.Count(c)
				}
			})
			return n.Result(r)
		}
		r := []any{}
		n, last := 0, 0
		m.Each(func(k K, v int) {
			kk := s.KK.Un(k)
			if n%g == 0 {
				r = append(r, L(kk/g, v))
			} else if kk != last+1 || kk%g == 0 || r[len(r)-1].([]any)[1] != v {
				r = append(r, L(-1, kk)) // a gap inside a group
			}
			last = kk
			n++
		})
		return r
	case "height":
		n := 0
		m.Each(func(K, int) { n++ })
		return L(n, m.(interface{ Height() int }).Height())
	case "cost":
		n := 0
		m.Each(func(K, int) { n++ })
		s.Calls = 0
		m.Get(s.KK.Mk(o.I("k")))
		return L(n, s.Calls)
	case "maxcost":
		ks := []K{}
		m.Each(func(k K, _ int) { ks = append(ks, k) })
		max := 0
		for _, k := range ks {
			s.Calls = 0
			m.Get(k)
			if s.Calls > max {
				max = s.Calls
			}
		}
		return L(max)
	default:
		panic(Bad("unknown op " + o.S("op")))
	}
	return nil
}

// GetRes normalises the result of a lookup: nothing is promised about the
// value that comes with false.
func GetRes(v int, ok bool) []any {
	if !ok {
		return L(0, 0)
	}
	return L(v, 1)
}

// PlainNew is the creating step of maps without parameters.
func PlainNew(r *Rec, i, u int) Obj { return Obj{"op": "new", "i": i} }

// RecordOMap records random histories of ordered maps.
func RecordOMap(r *Rec, variants int, mkNew func(r *Rec, i, u int) Obj) {
	for hist := 0; hist < 12*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Base + hist%variants)
		ni := 1 + r.Intn(2)
		u := r.Pick(4, 8, 12, 20, 40, 60, 150, 300)
		if u > 100 {
			ni = 1
		}
		balance := func(i, k int) {
			if r.Focus == "balance" {
				r.Do(Obj{"op": "height", "i": i})
				r.Do(Obj{"op": "cost", "i": i, "k": k})
			}
		}
		for i := 1; i <= ni; i++ {
			r.Do(mkNew(r, i, u))
		}
		v := 100
		steps := 150 + r.Intn(250) + u
		grow, mode, at, left := 0.5, 0, 0, 0
		key := func() int {
			switch mode {
			case 0:
				return r.Key(u) - r.Intn(2) // -1 is a key as well
			case 1:
				at++
			case 2:
				at--
			case 3:
				at += 7
			case 4:
				return (at + r.Intn(3)) % u
			}
			at = (at + u) % u
			return at
		}
		i := 1
		for st := 0; st < steps && !r.Stopped(); st++ {
			if left--; left < 0 {
				left = 10 + r.Intn(u+40)
				grow = []float64{0, 0.1, 0.3, 0.5, 0.7, 0.9, 1}[r.Intn(7)]
				mode, at = r.Pick(0, 0, 0, 1, 2, 3, 4), r.Intn(u)
				if st == 0 {
					grow = 1
				}
			}
			if r.Intn(4) == 0 {
				i = 1 + r.Intn(ni)
			}
			k := key()
			v++
			switch x := r.Intn(20); {
			case x < 14:
				if r.Float64() < grow {
					r.Do(r.Churned(Obj{"op": "put", "i": i, "k": k, "v": r.Pick(v, v, v, v, v-1, 0)}))
				} else {
					r.Do(r.Churned(Obj{"op": "remove", "i": i, "k": k}))
				}
				balance(i, k)
				if r.Intn(4) == 0 {
					r.Do(r.Churned(Obj{"op": "get", "i": i, "k": k}))
				}
			case x < 17:
				if r.Clears && r.Intn(30) == 0 {
					r.Do(Obj{"op": "clear", "i": i})
				}
				r.Do(Obj{"op": "get", "i": i, "k": r.Key(u+2) - 1})
			case x < 18:
				r.Do(Obj{"op": "size", "i": i})
			case x < 19 && r.Intn(u) < 20:
				r.Do(Obj{"op": "each", "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			r.Do(Obj{"op": "size", "i": i})
			r.Do(Obj{"op": "each", "i": i})
			for n := 0; n < 12; n++ {
				r.Do(Obj{"op": "get", "i": i, "k": r.Intn(u+2) - 1})
			}
			balance(i, r.Intn(u))
		}
	}
}

// RecordBig records histories with ranges of many consecutive keys. budget
// bounds the number of keys a history may ever have held.
func RecordBig(r *Rec, variants, hists, budget int, mkNew func(r *Rec, i, u int) Obj) {
	top := budget
	for hist := 0; hist < hists && !r.Stopped(); hist++ {
		budget := top
		if hist > 0 {
			budget = []int{300, 1000, 3000}[r.Intn(3)]
		}
		r.Reset(r.Base + r.Intn(variants))
		r.Do(mkNew(r, 1, budget))
		v, used := 100, 0
		for st := 0; st < 60 && used < budget; st++ {
			k := r.Intn(budget)
			n := []int{1, 1, 2, 31, 33, 64, 65, 200, 1000, 5000}[r.Intn(10)]
			if n > budget/4 {
				n = budget / 4
			}
			op := "putrange"
			switch r.Intn(8) {
			case 0, 1, 2:
				op = "putdown"
			case 3, 4:
				op = "removerange"
			}
			v++
			if n == 1 && op != "removerange" {
				r.Do(Obj{"op": "put", "i": 1, "k": k, "v": v})
			} else {
				if op == "removerange" && r.Intn(2) == 0 {
					n /= 2
				}
				r.Do(Obj{"op": op, "i": 1, "k": k, "v": v, "n": n})
			}
			v += n
			if op != "removerange" {
				used += n
			}
			for q := 0; q < 6; q++ {
				x := []int{k, k - 1, k + n - 1, k + n, k + n/2, r.Intn(budget)}[q]
				r.Do(Obj{"op": "get", "i": 1, "k": x})
			}
			r.Do(Obj{"op": "size", "i": 1})
			if r.Focus == "balance" {
				r.Do(Obj{"op": "height", "i": 1})
				r.Do(Obj{"op": "cost", "i": 1, "k": k})
				if st%8 == 0 {
					r.Do(Obj{"op": "maxcost", "i": 1})
				}
			}
		}
		r.Do(Obj{"op": "each", "i": 1})
		r.Do(Obj{"op": "size", "i": 1})
		// Empty it almost completely and go on from there.
		k := r.Intn(budget)
		r.Do(Obj{"op": "removerange", "i": 1, "k": 0, "n": k})
		r.Do(Obj{"op": "size", "i": 1})
		r.Do(Obj{"op": "removerange", "i": 1, "k": k + 3, "n": 2 * budget})
		r.Do(Obj{"op": "each", "i": 1})
		r.Do(Obj{"op": "removerange", "i": 1, "k": k, "n": 3})
		r.Do(Obj{"op": "each", "i": 1})
		r.Do(Obj{"op": "size", "i": 1})
		for x := 0; x < 40; x++ {
			r.Do(Obj{"op": "put", "i": 1, "k": r.Intn(budget), "v": v + x})
		}
		r.Do(Obj{"op": "each", "i": 1})
		r.Do(Obj{"op": "size", "i": 1})
		if r.Focus == "balance" {
			r.Do(Obj{"op": "height", "i": 1})
		}
	}
}
