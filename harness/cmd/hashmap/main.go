// Conformance driver for packages hashmap and hashset (C04, C05, C06).
package main

import (
	"math/rand"
	"sort"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
)

// table is a map with numbers as values.
type table[K any] interface {
	h.OMap[K]
	Clear()
	copy() table[K]
}

type plain[K any] struct{ *hashmap.Map[K, int] }

func (m plain[K]) copy() table[K] { return plain[K]{m.Map.Copy()} }

// boxed has values of interface type.
type boxed[K any] struct {
	h.AnyMap[K]
	m *hashmap.Map[K, any]
}

func box[K any](m *hashmap.Map[K, any]) table[K] { return boxed[K]{h.AnyMap[K]{M: m, Null: 102}, m} }

func (m boxed[K]) Clear()         { m.m.Clear() }
func (m boxed[K]) copy() table[K] { return box(m.m.Copy()) }

// sys runs map steps. Keys of type K stand for ints; hashes come from the
// step that creates the map: a table (key modulo its length), or, when it is
// empty, generic.HashInt.
type sys[K any] struct {
	kk    h.KeyKind[K]
	inst  map[int]table[K]
	any   bool // values of interface type
	keys  []int
	eachs int
}

// Probe reads something.
func (s *sys[K]) Probe(r *rand.Rand) {
	m := s.inst[1+r.Intn(len(s.inst))]
	if m == nil {
		return
	}
	k := r.Intn(8)
	if len(s.keys) > 0 && r.Intn(4) > 0 {
		k = s.keys[r.Intn(len(s.keys))] + r.Intn(5)/3
	}
	switch r.Intn(8) {
	case 0:
		m.Size()
	case 1:
		h.Iterated(r, func(f func()) { m.Each(func(K, int) { f() }) })
	default:
		m.Get(s.kk.Mk(k))
	}
}

func (s *sys[K]) Do(o h.Obj) any {
	m := s.inst[o.I("i")]
	mk := s.kk.Mk
	if h.Replaying && o.Has("k") {
		s.keys = append(s.keys, o.I("k"))
	}
	switch o.S("op") {
	case "new":
		tab, sh, inv := o.Ints("h"), o.I("sh"), o.Has("inv")
		hash := func(k K) uint64 {
			x := s.kk.Un(k)
			if len(tab) == 0 {
				return g.HashInt(x)
			}
			u := uint64(tab[((x%len(tab))+len(tab))%len(tab)]) << sh
			if inv {
				return ^u
			}
			return u
		}
		eq := func(a, b K) bool { return !s.kk.Less(a, b) && !s.kk.Less(b, a) }
		if s.any {
			s.inst[o.I("i")] = box(hashmap.New[K, any](uint64(o.I("cap")), eq, hash))
		} else {
			s.inst[o.I("i")] = plain[K]{hashmap.New[K, int](uint64(o.I("cap")), eq, hash)}
		}
	case "put":
		for x := h.Times(o); x > 0; x-- {
			m.Remove(mk(o.I("k")))
			m.Put(mk(o.I("k")), o.I("v"))
		}
		m.Put(mk(o.I("k")), o.I("v"))
	case "putrange":
		for x := 0; x < o.I("n"); x++ {
			m.Put(mk(o.I("k")+x), o.I("v")+x)
		}
	case "putdown":
		for x := o.I("n") - 1; x >= 0; x-- {
			m.Put(mk(o.I("k")+x), o.I("v")+x)
		}
	case "remove":
		for x := h.Times(o); x > 0; x-- {
			m.Put(mk(o.I("k")), -x)
			m.Remove(mk(o.I("k")))
		}
		m.Remove(mk(o.I("k")))
	case "removerange":
		for x := 0; x < o.I("n"); x++ {
			m.Remove(mk(o.I("k") + x))
		}
	case "clear":
		m.Clear()
	case "copy":
		s.inst[o.I("j")] = m.copy()
	case "get":
		for x := h.Times(o); x > 0; x-- {
			m.Get(mk(o.I("k") + x%2))
		}
		return h.GetRes(m.Get(mk(o.I("k"))))
	case "size":
		return h.L(m.Size())
	case "each":
		type kv struct{ k, v int }
		l := []kv{}
		s.eachs++
		n := h.Nest{}
		m.Each(func(k K, v int) {
			l = append(l, kv{s.kk.Un(k), v})
			if n.Now() && s.eachs%2 == 1 {
				x, ok := m.Get(k)
				n.Check(ok && x == v)
				c := 0
				m.Each(func(K, int) { c++ })
				n.Count(c)
				n.Check(m.Size() == c)
			}
		})
		sort.Slice(l, func(a, b int) bool { return l[a].k < l[b].k || l[a].k == l[b].k && l[a].v < l[b].v })
		r := []any{}
		for _, e := range l {
			r = append(r, h.L(e.k, e.v))
		}
		if s.eachs%2 == 1 {
			return n.Result(r)
		}
		return r
	default:
		panic(h.Bad("unknown op " + o.S("op")))
	}
	return nil
}

// newMap makes a creating step with a random capacity and hash function.
func newMap(r *h.Rec, i, u int) h.Obj {
	r.Churn = 0
	if u > 12 {
		r.Churn = 1
	}
	if u > 60 {
		r.Churn = 2
	}
	caps := []int{0, 1, 2, 3, 4, 7, 8, 16, 64, 1000}
	tab, sh := []int{}, 0
	switch r.Intn(6) {
	case 0:
		tab, sh = []int{r.Pick(0, -1, 5, 7, -2, 1)}, r.Pick(0, 0, 62, 63)
	case 1: // few homes
		n := 2 + r.Intn(4)
		for x := 0; x < 3*u; x++ {
			tab = append(tab, []int{0, 1, -1, 7, 8, 15, 1000}[r.Intn(n)])
		}
	case 2: // close to the end of the table
		for x := 0; x < 2*u; x++ {
			tab = append(tab, -1-r.Intn(4))
		}
	case 3: // arbitrary
		for x := 0; x < 2*u; x++ {
			tab = append(tab, r.Intn(2*u))
		}
	case 4: // differ in high bits only
		for x := 0; x < u; x++ {
			tab = append(tab, x)
		}
		sh = r.Pick(40, 56, 60, 62, 63)
	}
	o := h.Obj{"op": "new", "i": i, "cap": caps[r.Intn(len(caps))], "h": tab, "sh": sh}
	if r.Intn(4) == 0 {
		o["inv"] = 1
	}
	return o
}

// copies records histories over a family of copies.
func copies(r *h.Rec) {
	for hist := 0; hist < 12*r.Scale && !r.Stopped(); hist++ {
		r.Reset(hist % 4)
		u := r.Pick(2, 4, 12, 30, 60, 200)
		ni, max := 1, 2+r.Intn(5)
		r.Do(newMap(r, 1, u))
		v := 100
		writeBias := 2 + r.Intn(10)
		i, grow, left := 1, 16, 0
		for st := 0; st < 150+u; st++ {
			if left--; left < 0 {
				left, grow = r.Intn(60), r.Pick(2, 10, 16, 16, 22, 28)
			}
			if r.Intn(3) == 0 {
				i = 1 + r.Intn(ni)
			}
			v++
			switch x := r.Intn(writeBias + 5); {
			case x < writeBias:
				k := r.Key(u)
				switch y := r.Intn(30); {
				case y < grow:
					r.Do(r.Churned(h.Obj{"op": "put", "i": i, "k": k, "v": r.Pick(v, v, v, v, v-1, 0)}))
				case y < 29 || r.Intn(2) == 0:
					r.Do(r.Churned(h.Obj{"op": "remove", "i": i, "k": k}))
				default:
					r.Do(h.Obj{"op": "clear", "i": i})
				}
			case x < writeBias+2:
				j := 1 + r.Intn(max)
				if j > ni {
					ni++
					j = ni
				}
				if j != i {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
				}
			case x == writeBias+2:
				r.Do(h.Obj{"op": "size", "i": i})
			case x == writeBias+3:
				r.Do(h.Obj{"op": "get", "i": i, "k": r.Key(u)})
			default:
				for j := 1; j <= ni; j++ {
					r.Do(h.Obj{"op": "each", "i": j})
				}
			}
		}
		for j := 1; j <= ni; j++ {
			r.Do(h.Obj{"op": "each", "i": j})
			r.Do(h.Obj{"op": "size", "i": j})
			for k := 0; k < u && k < 8; k++ {
				r.Do(h.Obj{"op": "get", "i": j, "k": k})
			}
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 4,
		New: func(v int) h.Sys {
			switch v {
			case 1:
				return &sys[h.Tagged]{h.TaggedKeys(), map[int]table[h.Tagged]{}, false, nil, 0}
			case 2:
				return &sys[string]{h.StrKeys(), map[int]table[string]{}, false, nil, 0}
			case 3:
				return &sys[any]{h.AnyKeys(1), map[int]table[any]{}, true, nil, 0}
			}
			return &sys[int]{h.IntKeys(), map[int]table[int]{}, false, nil, 0}
		},
		Record: func(r *h.Rec) {
			if r.Focus == "copies" {
				copies(r)
				return
			}
			r.Clears = true
			h.RecordOMap(r, 4, newMap)
			h.RecordBig(r, 4, 2*r.Scale, 3000, func(r *h.Rec, i, u int) h.Obj {
				o := newMap(r, i, u)
				if u > 300 { // no heavy collisions: removing takes cubic time there
					o["h"], o["sh"] = []int{}, 0
					delete(o, "inv")
					if r.Intn(2) == 0 {
						tab := []int{}
						for x := 0; x < 2*u; x++ {
							tab = append(tab, r.Intn(2*u))
						}
						o["h"] = tab
					}
				}
				return o
			})
		},
	})
}
