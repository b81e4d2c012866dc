// Conformance driver for package queue (C12, C05).
package main

import (
	"math/rand"
	"strconv"

	"verif/harness/h"

	"github.com/zyedidia/generic/queue"
)

type sys[V any] struct {
	mk    func(int) V
	un    func(V) int
	inst  map[int]*queue.Queue[V]
	eachs int
	res   h.Results
}

func (s *sys[V]) list(q []V) []any {
	l := []any{}
	for _, v := range q {
		l = append(l, s.un(v))
	}
	return h.Take(&s.res, q, func(v V) any { return s.un(v) }, l)
}

// Probe reads something.
func (s *sys[V]) Probe(r *rand.Rand) {
	q := s.inst[1]
	switch r.Intn(6) {
	case 0:
		q.Len()
	case 1:
		q.Empty()
	case 2:
		s.list(q.PeekAll())
	case 3:
		h.Iterated(r, func(f func()) { q.Each(func(V) { f() }) })
	case 4:
		q.TryPeek()
	default:
		q.Peek() // may panic
	}
}

func (s *sys[V]) Do(o h.Obj) any {
	q := s.inst[o.I("i")]
	switch op := o.S("op"); op {
	case "new":
		s.inst[o.I("i")] = queue.New[V]()
	case "of":
		var sl []V
		for _, v := range o.Ints("vals") {
			sl = append(sl, s.mk(v))
		}
		s.inst[o.I("i")] = queue.Of(sl)
		for i := range sl {
			sl[i] = s.mk(-6)
		}
	case "enq":
		q.Enqueue(s.mk(o.I("v")))
	case "many":
		for x := 0; x < o.I("n"); x++ {
			q.Enqueue(s.mk(o.I("v") + x))
		}
	case "rot": // n times from the front to the back
		for x := 0; x < o.I("n"); x++ {
			q.Enqueue(q.Dequeue())
		}
	case "deqn":
		l := []any{}
		for x := 0; x < o.I("n"); x++ {
			if x%2 == 0 {
				v, ok := q.TryDequeue()
				if !ok {
					break
				}
				l = append(l, s.un(v))
			} else if q.Empty() {
				break
			} else {
				l = append(l, s.un(q.Dequeue()))
			}
		}
		return l
	case "deq":
		return h.L(s.un(q.Dequeue()))
	case "trydeq":
		v, ok := q.TryDequeue()
		return h.L(s.un(v), h.B(ok))
	case "deqall":
		return s.list(q.DequeueAll())
	case "peek":
		return h.L(s.un(q.Peek()))
	case "trypeek":
		v, ok := q.TryPeek()
		return h.L(s.un(v), h.B(ok))
	case "peekall":
		return s.list(q.PeekAll())
	case "each":
		var l []V
		s.eachs++
		n := h.Nest{}
		q.Each(func(v V) {
			if len(l) < 1<<16 {
				l = append(l, v)
			}
			if s.eachs%2 == 1 && n.Now() {
				c, first := 0, s.un(v)
				q.Each(func(v V) {
					if c++; c == 1 {
						first = s.un(v)
					}
				})
				n.Count(c)
				p, ok := q.TryPeek()
				n.Check(q.Len() == c && !q.Empty() && ok && s.un(p) == first && len(q.PeekAll()) == c)
			}
		})
		if s.eachs%2 == 1 {
			return n.Result(s.list(l))
		}
		return s.list(l)
	case "len":
		return h.L(q.Len())
	case "empty":
		return h.L(h.B(q.Empty()))
	case "clear":
		q.Clear()
	case "copy":
		s.inst[o.I("j")] = q.Copy()
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func record(r *h.Rec) {
	for hist := 0; hist < 16*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		ni, max := 1+r.Intn(2), 2
		if r.Focus == "copies" {
			max = 2 + r.Intn(4)
		}
		val := func() int {
			if r.Intn(8) == 0 {
				return 0
			}
			return r.Intn(1000)
		}
		for i := 1; i <= ni; i++ {
			if r.Intn(2) == 0 {
				r.Do(h.Obj{"op": "new", "i": i})
			} else {
				vals := []int{}
				for n := r.Pick(0, 1, 2, 5, 60); n > 0; n-- {
					vals = append(vals, val())
				}
				r.Do(h.Obj{"op": "of", "i": i, "vals": vals})
			}
		}
		grow := 0.5
		for st := 0; st < 220; st++ {
			if st%30 == 0 {
				grow = []float64{0.3, 0.5, 0.6, 0.9}[r.Intn(4)]
			}
			i := 1 + r.Intn(ni)
			if r.Intn(60) == 0 {
				r.Do(h.Obj{"op": "enq", "i": i, "v": val()})
				r.Do(h.Obj{"op": "rot", "i": i, "n": r.Pick(1, 2, 3, 7, 16, 300, 300, 300, 66000)})
			}
			switch x := r.Intn(30); {
			case x < 18:
				if r.Float64() < grow {
					r.Do(h.Obj{"op": "enq", "i": i, "v": val()})
				} else {
					r.Do(h.Obj{"op": []string{"deq", "trydeq"}[r.Intn(2)], "i": i})
				}
			case x < 19 && r.Intn(3) == 0:
				r.Do(h.Obj{"op": []string{"deqall", "clear"}[r.Intn(2)], "i": i})
			case x < 21 && r.Focus == "copies":
				j := 1 + r.Intn(max)
				if j > ni {
					ni++
					j = ni
				}
				if i != j {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
				}
			case r.Focus == "copies":
				for j := 1; j <= ni; j++ {
					r.Do(h.Obj{"op": []string{"each", "peekall"}[r.Intn(2)], "i": j})
				}
			default:
				r.Do(h.Obj{"op": []string{"peek", "trypeek", "peekall", "each", "len", "empty"}[r.Intn(6)], "i": i})
			}
		}
		for i := 1; i <= ni; i++ {
			for _, op := range []string{"each", "len", "empty", "peek", "deqall", "each", "len", "empty", "trypeek", "peek", "deq", "trydeq"} {
				r.Do(h.Obj{"op": op, "i": i})
			}
			r.Do(h.Obj{"op": "enq", "i": i, "v": 5})
			r.Do(h.Obj{"op": "each", "i": i})
			r.Do(h.Obj{"op": "deq", "i": i})
		}
	}
}

// large records histories of queues with thousands of items.
func large(r *h.Rec) {
	for hist := 0; hist < 2*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		r.Do(h.Obj{"op": "new", "i": 1})
		size, v := 0, 1
		for st := 0; st < 60; st++ {
			n := r.Pick(1, 2, 3, r.Intn(40), r.Intn(300), r.Intn(2000), 1<<r.Intn(12)-r.Intn(2))
			if r.Intn(8) == 0 {
				n = max(0, size+r.Intn(3)-1)
			}
			switch x := r.Intn(10); {
			case x < 5 && size < 6000:
				r.Do(h.Obj{"op": "many", "i": 1, "n": n, "v": v})
				v += n
				size += n
			default:
				r.Do(h.Obj{"op": "deqn", "i": 1, "n": n})
				size = max(0, size-n)
			}
			if size > 0 && r.Intn(4) == 0 {
				r.Do(h.Obj{"op": "rot", "i": 1, "n": r.Pick(1, size, size-1, r.Intn(3*size), 300, 70000)})
			}
			r.Do(h.Obj{"op": []string{"len", "trypeek", "empty"}[r.Intn(3)], "i": 1})
			if r.Intn(12) == 0 {
				r.Do(h.Obj{"op": []string{"each", "peekall"}[r.Intn(2)], "i": 1})
			}
		}
		r.Do(h.Obj{"op": "deqn", "i": 1, "n": size + 5})
		r.Do(h.Obj{"op": "trydeq", "i": 1})
		r.Do(h.Obj{"op": "many", "i": 1, "n": 3, "v": 7})
		r.Do(h.Obj{"op": "each", "i": 1})
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 1 {
				return &sys[string]{func(n int) string {
					if n == 0 {
						return ""
					}
					return strconv.Itoa(n)
				}, func(x string) int { n, _ := strconv.Atoi(x); return n }, map[int]*queue.Queue[string]{}, 0, h.Results{}}
			}
			if v == 2 {
				return &sys[any]{func(x int) any { return h.MkAny(x, 0) }, func(x any) int { return h.UnAny(x, 0) }, map[int]*queue.Queue[any]{}, 0, h.Results{}}
			}
			id := func(x int) int { return x }
			return &sys[int]{id, id, map[int]*queue.Queue[int]{}, 0, h.Results{}}
		},
		Record: func(r *h.Rec) {
			record(r)
			if r.Focus != "copies" {
				large(r)
			}
		},
	})
}
