// Conformance driver for containers of any package at sizes up to hundreds of
// thousands of entries: operations act on ranges of consecutive integers, and
// contents are reported as runs (specification BigModel).
package main

import (
	"strings"

	"sort"

	"verif/harness/h"

	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
)

var config h.Config

// A kv is a container of key-value pairs; sets hold each key with itself.
type kv interface {
	Put(k, v int)
	Get(k int) (int, bool)
	Remove(k int)
	Each(fn func(k, v int))
	Size() int
}

type clearer interface{ Clear() }

// An algebra is a kv with set operations.
type algebra interface {
	kv
	alg(op string, inPlace bool, other algebra, copies int) algebra
	rel(op string, other algebra) bool
}

// kind is one kind of container.
type kind struct {
	name  string
	t     string // map, seq or lru
	props string // the properties it serves
	loose bool   // iterates in no particular order
	mk    func(s *sys, i int, c int) any
}

type sys struct {
	k     *kind
	inst  map[int]any
	extra any // what the instances share
	calls int
	count bool // count calls of less
}

// order calls f on 0..n-1 in the order how: 0 up, 1 down, others by strides.
func order(n, how int, f func(x int)) {
	if how == 1 {
		for x := n - 1; x >= 0; x-- {
			f(x)
		}
		return
	}
	st := 1
	if how > 1 && n > 1 {
		for st = how % n; gcd(st, n) != 1; st++ {
		}
	}
	for x, y := 0, 0; x < n; x++ {
		f(y)
		y = (y + st) % n
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// runs writes pairs as runs [lo, hi, d]: k has value k+d for lo <= k <= hi.
func runs(p [][2]int) []any {
	r := []any{}
	for x := 0; x < len(p) && len(r) < 2000; {
		y := x + 1
		for y < len(p) && p[y][0] == p[y-1][0]+1 && p[y][1] == p[y-1][1]+1 {
			y++
		}
		r = append(r, h.L(p[x][0], p[y-1][0], p[x][1]-p[x][0]))
		x = y
	}
	return r
}

// same makes pairs of equal parts of a list.
func same(l []int) [][2]int {
	p := make([][2]int, len(l))
	for x, v := range l {
		p[x] = [2]int{v, v}
	}
	return p
}

func turned[T any](l []T) []T {
	r := make([]T, len(l))
	for x, v := range l {
		r[len(l)-1-x] = v
	}
	return r
}

func found(v int, ok bool) any {
	if !ok {
		return h.L(0, 0)
	}
	return h.L(v, 1)
}

func span(v, n int) []int {
	l := make([]int, n)
	for x := range l {
		l[x] = v + x
	}
	return l
}

func (s *sys) Do(o h.Obj) any {
	op, i := o.S("op"), o.I("i")
	switch op {
	case "new":
		s.inst[i] = s.k.mk(s, i, o.I("c"))
		return nil
	case "of":
		s.inst[i] = s.of(o)
		return nil
	case "par":
		return s.par(o)
	case "calls", "mem", "cpu", "live":
		return s.work(o, op)
	case "conf":
		if s.k.name == "rope" {
			config.Set(o, &rope.SplitLength, &rope.JoinLength, &rope.RebalanceRatio)
		} else {
			config.Set(o, &prope.SplitLength, &prope.JoinLength, &prope.RebalanceRatio)
		}
		return nil
	}
	dst := i
	if o.Has("j") {
		dst = o.I("j")
	}
	switch c := s.inst[i].(type) {
	case *lru:
		return c.do(o, op)
	case kv:
		return s.doMap(o, op, c, dst)
	case bag:
		return c.do(o, op)
	case interface {
		do(s *sys, o h.Obj, op string, dst int) any
	}:
		return c.do(s, o, op, dst)
	}
	panic(h.Bad("no instance"))
}

func (s *sys) doMap(o h.Obj, op string, c kv, dst int) any {
	k, n := o.I("k"), o.I("n")
	switch op {
	case "fill":
		order(n, o.I("how"), func(x int) { c.Put(k+x, o.I("v")+x) })
	case "drain":
		order(n, o.I("how"), func(x int) { c.Remove(k + x) })
	case "bfill":
		order(n, o.I("how"), func(x int) { c.Put(k+x, o.I("v")+x) })
	case "bdrain":
		order(n, o.I("how"), func(x int) { c.(*bi).RemoveReverse(o.I("v") + x) })
	case "rev":
		return found(c.(*bi).GetReverse(o.I("v")))
	case "clear":
		c.(clearer).Clear()
	case "mclear":
		c.(*multi).m.Clear()
	case "get":
		return found(c.Get(k))
	case "has":
		_, ok := c.Get(k)
		return h.L(h.B(ok))
	case "size":
		return h.L(c.Size())
	case "runs":
		p := make([][2]int, 0, c.Size())
		c.Each(func(k, v int) { p = append(p, [2]int{k, v}) })
		if s.k.loose {
			sort.Slice(p, func(a, b int) bool { return p[a][0] < p[b][0] })
		}
		return runs(p)
	case "hits":
		p := [][2]int{}
		for x := k; x < k+n; x++ {
			if v, ok := c.Get(x); ok {
				p = append(p, [2]int{x, v})
			}
		}
		return runs(p)
	case "over":
		return c.(*iv).over(k, n)
	case "overn": // the entries that overlap one of [k, k+1), [k+1, k+2), ...
		p := [][2]int{}
		for x := 0; x < n; x++ {
			for _, e := range c.(*iv).Overlaps(k+x, k+x+1) {
				if len(p) == 0 || p[len(p)-1][0] < e.Low {
					p = append(p, [2]int{e.Low, e.Val})
				}
			}
		}
		return runs(p)
	case "longestn":
		p := []int{}
		for x := k; x < k+n; x++ {
			if c.(*tr).longest(x)[0] == 1 {
				p = append(p, x)
			}
		}
		return runs0(p)
	case "prefix":
		return c.(*tr).prefix(k, n)
	case "height":
		return h.L(c.(interface{ Height() int }).Height())
	case "cost":
		s.calls, s.count = 0, true
		c.Get(k)
		s.count = false
		return h.L(s.calls)
	case "longest":
		return c.(*tr).longest(k)
	case "dup":
		s.inst[dst] = c.(interface{ dup() kv }).dup()
	case "union", "inter", "diff", "sym":
		b, m := s.inst[o.I("a")].(algebra), 0
		if o.Has("m") {
			m = o.I("m")
		}
		s.inst[dst] = c.(algebra).alg(op, !o.Has("j"), b, m)
	case "eq", "sub", "sup", "psub", "psup", "disj":
		return h.L(h.B(c.(algebra).rel(op, s.inst[o.I("a")].(algebra))))
	case "total":
		return h.L(c.(*multi).m.Size())
	case "dim":
		return h.L(c.(*multi).m.Dimension())
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func main() {
	h.Main(&h.Driver{
		Variants: len(kinds),
		Slow:     true,
		New: func(v int) h.Sys {
			return &sys{k: &kinds[v], inst: map[int]any{}}
		},
		Skip:   func(focus string, v int) bool { return !kinds[v].serves(focus) },
		Alone:  func(focus string) bool { return strings.Contains(focus, "33") }, // memory is measured
		Record: record,
	})
}
