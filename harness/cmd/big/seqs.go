package main

import (
	"verif/harness/h"

	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/ulist"
)

// runs0 writes a list as runs [lo, hi, 0].
func runs0(l []int) []any {
	p := same(l)
	return runs(p)
}

// ---- queue -----------------------------------------------------------------

type q struct{ *queue.Queue[int] }

// newQueue: an instance that does not exist before something enters it is made
// from a slice.
func newQueue(s *sys, i, c int) any {
	if c == 1 {
		return q{nil}
	}
	return q{queue.New[int]()}
}

func (x q) do(s *sys, o h.Obj, op string, dst int) any {
	n := o.I("n")
	if x.Queue == nil {
		if op == "back" {
			s.inst[dst] = q{queue.Of(span(o.I("v"), n))}
			return nil
		}
		x.Queue = queue.New[int]()
		s.inst[o.I("i")] = x
	}
	switch op {
	case "back":
		for y := 0; y < n; y++ {
			x.Enqueue(o.I("v") + y)
		}
	case "popf":
		l := []int{}
		if n >= x.Len() {
			l = x.DequeueAll()
		} else {
			for y := 0; y < n; y++ {
				if y%2 == 0 {
					l = append(l, x.Dequeue())
				} else if v, ok := x.TryDequeue(); ok {
					l = append(l, v)
				}
			}
		}
		return runs0(l)
	case "clear":
		x.Clear()
	case "peekf":
		return found(x.TryPeek())
	case "size":
		return h.L(x.Len())
	case "runs":
		l := []int{}
		x.Each(func(v int) { l = append(l, v) })
		return runs0(l)
	case "peekall":
		return runs0(x.PeekAll())
	case "dup":
		s.inst[dst] = q{x.Copy()}
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// ---- stack -----------------------------------------------------------------

type st struct{ *stack.Stack[int] }

func newStack(s *sys, i, c int) any { return st{stack.New[int]()} }

func (x st) do(s *sys, o h.Obj, op string, dst int) any {
	n := o.I("n")
	switch op {
	case "back":
		for y := 0; y < n; y++ {
			x.Push(o.I("v") + y)
		}
	case "popb":
		l := []int{}
		for y := 0; y < n && x.Size() > 0; y++ {
			l = append(l, x.Pop())
		}
		return runs0(turned(l))
	case "peekb":
		return found(x.Peek(), x.Size() > 0)
	case "size":
		return h.L(x.Size())
	case "dup":
		s.inst[dst] = st{x.Copy()}
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// ---- list ------------------------------------------------------------------

type li struct{ *list.List[int] }

func newList(s *sys, i, c int) any { return li{list.New[int]()} }

func (x li) node(pos int) *list.Node[int] {
	n := x.Front
	for ; pos > 0; pos-- {
		n = n.Next
	}
	return n
}

func (x li) do(s *sys, o h.Obj, op string, dst int) any {
	n, v := o.I("n"), o.I("v")
	switch op {
	case "back":
		for y := 0; y < n; y++ {
			x.PushBack(v + y)
		}
	case "front":
		for y := n - 1; y >= 0; y-- {
			x.PushFront(v + y)
		}
	case "ins": // side 0: after the node before pos, 1: before the node at pos
		if x.Front == nil {
			for y := 0; y < n; y++ {
				x.PushBackNode(&list.Node[int]{Value: v + y})
			}
		} else if o.I("side") == 0 {
			at := x.node(o.I("pos") - 1)
			for y := 0; y < n; y++ {
				at = x.InsertAfter(at, &list.Node[int]{Value: v + y})
			}
		} else {
			at := x.node(o.I("pos"))
			for y := n - 1; y >= 0; y-- {
				at = x.InsertBefore(at, &list.Node[int]{Value: v + y})
			}
		}
	case "del":
		at := x.node(o.I("pos"))
		for y := 0; y < n; y++ {
			next := at.Next
			x.Remove(at)
			at = next
		}
	case "runs":
		l := []int{}
		x.Front.Each(func(v int) {
			if len(l) < 1<<22 {
				l = append(l, v)
			}
		})
		return runs0(l)
	case "back-runs":
		l := []int{}
		x.Back.EachReverse(func(v int) {
			if len(l) < 1<<22 {
				l = append(l, v)
			}
		})
		return runs0(turned(l))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// ---- unrolled list -----------------------------------------------------------

type ul struct{ *ulist.UList[int] }

func newUList(s *sys, i, c int) any { return ul{ulist.New[int](c)} }

func (x ul) iter(pos int) *ulist.UListIter[int] {
	if n := x.Size(); pos > n/2 {
		it := x.End()
		for y := n - 1; y > pos; y-- {
			it.Prev()
		}
		return it
	}
	it := x.Begin()
	for ; pos > 0; pos-- {
		it.Next()
	}
	return it
}

func where(it *ulist.UListIter[int]) any {
	if !it.IsValid() {
		return h.L(0, 0)
	}
	return h.L(it.Get(), 1)
}

func (x ul) do(s *sys, o h.Obj, op string, dst int) any {
	n, v := o.I("n"), o.I("v")
	switch op {
	case "back":
		for y := 0; y < n; y++ {
			x.PushBack(v + y)
		}
	case "front":
		for y := n - 1; y >= 0; y-- {
			x.PushFront(v + y)
		}
	case "insit":
		if o.I("side") == 0 {
			it := x.iter(o.I("pos") - 1)
			for y := 0; y < n; y++ {
				x.AddAfter(it, v+y)
			}
			return where(it)
		}
		it := x.iter(o.I("pos"))
		for y := n - 1; y >= 0; y-- {
			x.AddBefore(it, v+y)
		}
		return where(it)
	case "delit":
		it := x.iter(o.I("pos"))
		for y := 0; y < n; y++ {
			x.Remove(it)
		}
		return where(it)
	case "size":
		return h.L(x.Size())
	case "runs":
		l := []int{}
		for it := x.Begin(); it.IsValid() && len(l) < 1<<22; it.Next() {
			l = append(l, it.Get())
		}
		return runs0(l)
	case "back-runs":
		l := []int{}
		for it := x.End(); it.IsValid() && len(l) < 1<<22; it.Prev() {
			l = append(l, it.Get())
		}
		return runs0(turned(l))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// ---- rope --------------------------------------------------------------------

type rp struct{ *rope.Node[int] }

func newRope(s *sys, i, c int) any { return rp{rope.New([]int{})} }

func (x rp) do(s *sys, o h.Obj, op string, dst int) any {
	n, v := o.I("n"), o.I("v")
	switch op {
	case "back": // on an empty rope
		s.inst[dst] = rp{rope.New(span(v, n))}
	case "ins":
		b := span(v, n)
		x.Insert(o.I("pos"), b)
		for y := range b {
			b[y] = -9
		}
	case "del":
		x.Remove(o.I("pos"), o.I("pos")+n)
	case "at":
		return h.L(x.At(o.I("pos")))
	case "slice":
		b := x.Slice(o.I("pos"), o.I("pos")+n)
		r := runs0(b)
		return r
	case "size":
		return h.L(x.Len())
	case "runs":
		return runs0(x.Value())
	case "peekall":
		l := []int{}
		x.Each(func(n *rope.Node[int]) { l = append(l, n.Value()...) })
		return runs0(l)
	case "cut":
		l, r := x.SplitAt(o.I("pos"))
		s.inst[o.I("i")], s.inst[dst] = rp{l}, rp{r}
	case "join": // what was joined starts anew, empty
		j := o.I("a")
		s.inst[o.I("i")] = rp{rope.Join(x.Node, s.inst[j].(rp).Node)}
		s.inst[j] = newRope(s, j, 0)
	case "cat":
		s.inst[dst] = rp{rope.Join(x.Node, s.inst[o.I("a")].(rp).Node)}
	case "rebuild":
		x.Rebuild()
	case "rebal":
		x.Rebalance()
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// ---- persistent rope ---------------------------------------------------------

type pr struct{ *prope.Node[int] }

func newProp(s *sys, i, c int) any { return pr{prope.New([]int{})} }

func (x pr) do(s *sys, o h.Obj, op string, dst int) any {
	n, v := o.I("n"), o.I("v")
	switch op {
	case "back": // on an empty rope
		s.inst[dst] = pr{prope.New(span(v, n))}
	case "ins":
		b := span(v, n)
		s.inst[dst] = pr{x.Insert(o.I("pos"), b)}
		for y := range b {
			b[y] = -9
		}
	case "del":
		s.inst[dst] = pr{x.Remove(o.I("pos"), o.I("pos")+n)}
	case "cutl":
		l, _ := x.SplitAt(o.I("pos"))
		s.inst[dst] = pr{l}
	case "cutr":
		_, r := x.SplitAt(o.I("pos"))
		s.inst[dst] = pr{r}
	case "cat":
		s.inst[dst] = pr{prope.Join(x.Node, s.inst[o.I("a")].(pr).Node)}
	case "at":
		return h.L(x.At(o.I("pos")))
	case "slice":
		b := x.Slice(o.I("pos"), o.I("pos")+n)
		r := runs0(b)
		for y := range b {
			b[y] = -8
		}
		return r
	case "size":
		return h.L(x.Len())
	case "runs":
		b := x.Value()
		r := runs0(b)
		for y := range b {
			b[y] = -8
		}
		return r
	case "rebuild":
		x.Rebuild()
	case "rebal":
		x.Rebalance()
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}
