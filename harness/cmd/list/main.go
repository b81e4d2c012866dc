// Conformance driver for package list (C11).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/list"
)

// sys holds the lists and nodes of one behaviour. Nodes are numbered by the
// behaviour; a node's value is its number.
type sys[V any] struct {
	mk    func(int) V
	un    func(V) int
	lists map[int]*list.List[V]
	node  map[int]*list.Node[V]
	id    map[*list.Node[V]]int
	eachs int
	zero  bool // start from the zero List instead of New
}

func (s *sys[V]) get(n int) *list.Node[V] {
	if n == 0 {
		return nil
	}
	if s.node[n] == nil {
		s.name(n, &list.Node[V]{Value: s.mk(n)})
	}
	return s.node[n]
}

func (s *sys[V]) name(n int, x *list.Node[V]) {
	s.node[n] = x
	s.id[x] = n
}

func (s *sys[V]) num(x *list.Node[V]) int {
	if x == nil {
		return 0
	}
	if n, ok := s.id[x]; ok {
		return n
	}
	return -1
}

// Probe reads something.
func (s *sys[V]) Probe(r *rand.Rand) {
	if len(s.node) == 0 || len(s.lists) == 0 {
		return
	}
	n := s.node[1+r.Intn(len(s.node))]
	if n == nil {
		return
	}
	limit := 50
	switch r.Intn(4) {
	case 0:
		collect(limit, func(add func(int)) { n.Each(func(V) { add(0) }) })
	case 1:
		collect(limit, func(add func(int)) { n.EachReverse(func(V) { add(0) }) })
	case 2:
		collect(limit, func(add func(int)) { n.EachNode(func(*list.Node[V]) { add(0) }) })
	case 3:
		collect(limit, func(add func(int)) { n.EachReverseNode(func(*list.Node[V]) { add(0) }) })
	}
}

// stop ends a walk that does not end (a cycle).
type stop struct{}

func collect(limit int, f func(add func(int))) (r []any) {
	r = []any{}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				panic(e)
			}
			r = append(r, -9)
		}
	}()
	f(func(n int) {
		if len(r) > limit {
			panic(stop{})
		}
		r = append(r, n)
	})
	return r
}

func (s *sys[V]) Do(o h.Obj) any {
	l := s.lists[o.I("i")]
	limit := len(s.node) + 3
	for x := h.Times(o); x > 0; x-- { // in and out again
		n := s.get(o.I("n"))
		switch o.S("op") {
		case "pushback":
			l.PushBackNode(n)
			l.Remove(n)
		case "pushfront":
			l.PushFrontNode(n)
			l.Remove(n)
		case "insafter":
			l.InsertAfter(s.get(o.I("m")), n)
			l.Remove(n)
		case "insbefore":
			l.InsertBefore(s.get(o.I("m")), n)
			l.Remove(n)
		}
	}
	switch op := o.S("op"); op {
	case "new":
		if s.zero {
			s.lists[o.I("i")] = &list.List[V]{}
		} else {
			s.lists[o.I("i")] = list.New[V]()
		}
	case "pushback":
		l.PushBackNode(s.get(o.I("n")))
	case "pushfront":
		l.PushFrontNode(s.get(o.I("n")))
	case "pushbackv":
		l.PushBack(s.mk(o.I("n")))
		s.name(o.I("n"), l.Back)
	case "pushfrontv":
		l.PushFront(s.mk(o.I("n")))
		s.name(o.I("n"), l.Front)
	case "insafter":
		return h.L(s.num(l.InsertAfter(s.get(o.I("m")), s.get(o.I("n")))))
	case "insbefore":
		return h.L(s.num(l.InsertBefore(s.get(o.I("m")), s.get(o.I("n")))))
	case "remove":
		l.Remove(s.get(o.I("n")))
	case "ends":
		return h.L(s.num(l.Front), s.num(l.Back))
	case "walk":
		return collect(limit, func(add func(int)) {
			for n := l.Front; n != nil; n = n.Next {
				add(s.num(n))
			}
		})
	case "back":
		return collect(limit, func(add func(int)) {
			for n := l.Back; n != nil; n = n.Prev {
				add(s.num(n))
			}
		})
	case "each":
		return collect(limit, func(add func(int)) { s.get(o.I("n")).Each(func(v V) { add(s.un(v)) }) })
	case "eachrev":
		return collect(limit, func(add func(int)) { s.get(o.I("n")).EachReverse(func(v V) { add(s.un(v)) }) })
	case "eachnode":
		s.eachs++
		return collect(limit, func(add func(int)) {
			at := 0
			s.get(o.I("n")).EachNode(func(n *list.Node[V]) {
				add(s.num(n))
				if at++; s.eachs%2 == 1 && (at < 3 || at&(at-1) == 0) {
					// nested walks, there and back
					a, b := 0, 0
					n.EachNode(func(m *list.Node[V]) {
						if a++; a > limit {
							panic(stop{})
						}
					})
					n.EachReverse(func(V) {
						if b++; b > limit {
							panic(stop{})
						}
					})
					if c := len(collect(limit, func(add func(int)) { n.Each(func(V) { add(0) }) })); a != c || b < at {
						add(-8)
					}
				}
			})
		})
	case "eachrevnode":
		return collect(limit, func(add func(int)) { s.get(o.I("n")).EachReverseNode(func(n *list.Node[V]) { add(s.num(n)) }) })
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 12*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(6))
		nl := 1 + r.Intn(3)
		maxN := r.Pick(2, 4, 8, 30, 30, 300)
		grow := 5
		type lst = []int
		cur := make([]lst, nl+1)
		for i := 1; i <= nl; i++ {
			r.Do(h.Obj{"op": "new", "i": i})
		}
		used := 0
		var free []int
		for st := 0; st < 200+2*maxN; st++ {
			if maxN > 100 && st%200 == 0 {
				grow = r.Pick(7, 8, 4, 2)
			}
			i := 1 + r.Intn(nl)
			q := cur[i]
			total := 0
			for _, c := range cur {
				total += len(c)
			}
			switch x := r.Intn(10); {
			case x < grow && total < maxN:
				n, fresh := 0, false
				if len(free) > 0 && r.Intn(3) > 0 {
					k := r.Intn(len(free))
					n = free[k]
					free = append(free[:k:k], free[k+1:]...)
				} else {
					used++
					n, fresh = used, true
				}
				v := ""
				if fresh && r.Intn(2) == 0 {
					v = "v"
				}
				switch y := r.Intn(4); {
				case y == 0 || len(q) == 0 && y == 2:
					r.Do(r.Churned(h.Obj{"op": "pushback" + v, "i": i, "n": n}))
					cur[i] = append(q[:len(q):len(q)], n)
				case y == 1 || len(q) == 0:
					r.Do(r.Churned(h.Obj{"op": "pushfront" + v, "i": i, "n": n}))
					cur[i] = append([]int{n}, q...)
				default:
					p := r.Intn(len(q))
					op := "insafter"
					k := p + 1
					if y == 3 {
						op, k = "insbefore", p
					}
					r.Do(r.Churned(h.Obj{"op": op, "i": i, "m": q[p], "n": n}))
					cur[i] = append(append(append([]int{}, q[:k]...), n), q[k:]...)
				}
			case x < 9 && len(q) > 0:
				p := r.Pick(0, len(q)-1, r.Intn(len(q)))
				r.Do(h.Obj{"op": "remove", "i": i, "n": q[p]})
				free = append(free, q[p])
				cur[i] = append(append([]int{}, q[:p]...), q[p+1:]...)
			case x == 9 && r.Intn(maxN) <= 20:
				n := 0
				if len(q) > 0 && r.Intn(8) > 0 {
					n = q[r.Intn(len(q))]
				}
				for _, op := range []string{"each", "eachrev", "eachnode", "eachrevnode"} {
					r.Do(h.Obj{"op": op, "i": i, "n": n})
				}
			}
			r.Do(h.Obj{"op": "ends", "i": i})
			if r.Intn(maxN) > 20 {
				continue
			}
			if st%2 == 0 {
				r.Do(h.Obj{"op": "walk", "i": i})
			} else {
				r.Do(h.Obj{"op": "back", "i": i})
			}
		}
		for i := 1; i <= nl; i++ {
			r.Do(h.Obj{"op": "walk", "i": i})
			r.Do(h.Obj{"op": "back", "i": i})
		}
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		// 0, 5: integers, 1, 3: strings, 2, 4: any; 1, 4, 5: from the zero List
		New: func(v int) h.Sys {
			zero := v == 1 || v > 3
			switch v {
			case 1, 3:
				return &sys[string]{strconv.Itoa, func(x string) int { n, _ := strconv.Atoi(x); return n },
					map[int]*list.List[string]{}, map[int]*list.Node[string]{}, map[*list.Node[string]]int{}, 0, zero}
			case 2, 4:
				return &sys[any]{func(x int) any { return h.MkAny(x, 1) }, func(x any) int { return h.UnAny(x, 1) },
					map[int]*list.List[any]{}, map[int]*list.Node[any]{}, map[*list.Node[any]]int{}, 0, zero}
			}
			id := func(x int) int { return x }
			return &sys[int]{id, id, map[int]*list.List[int]{}, map[int]*list.Node[int]{}, map[*list.Node[int]]int{}, 0, zero}
		},
		Record: record,
	})
}
