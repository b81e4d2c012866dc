package main

import (
	"strings"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/trie"
)

// serves: focus is a property, or property:word with word the type, "=name" or a
// part of the name.
func (k *kind) serves(focus string) bool {
	pid, word, _ := strings.Cut(focus, ":")
	return strings.Contains(k.props+" ", pid+" ") && (k.t == word || "="+k.name == word || strings.Contains(k.name, word))
}

func (s *sys) less(a, b int) bool {
	if s.count {
		s.calls++
	}
	return a < b
}

func (s *sys) equals(a, b int) bool {
	if s.count {
		s.calls++
	}
	return g.Equals(a, b)
}

func (s *sys) hash(k int) uint64 {
	if s.count {
		s.calls++
	}
	return g.HashInt(k)
}

var kinds = []kind{
	{"avl", "map", "C01 C02 C31 K1 C32 C33 M33", false, func(s *sys, i, c int) any { return avl.New[int, int](s.less) }},
	{"btree", "map", "C03 C31 K1 C32", false, func(s *sys, i, c int) any { return btree.New[int, int](s.less) }},
	{"hashmap", "map", "C04 C05 C31 K1 C32 C33 M33", true, func(s *sys, i, c int) any { return hmap{hashmap.New[int, int](uint64(c), s.equals, s.hash)} }},
	{"hashmap pairs", "map", "C04 C05 C31 K1 C33 M33", true, func(s *sys, i, c int) any {
		return hmap{hashmap.New[int, int](uint64(c), s.equals, func(k int) uint64 { return s.hash(k / 3) })}
	}},
	{"hashset", "map", "C05 C06 C31 K1 C32 C33 M33", true, func(s *sys, i, c int) any { return &hset{hashset.New(uint64(c), s.equals, s.hash)} }},
	{"mapset", "map", "C06 C31 K1 C32 C33 M33", true, func(s *sys, i, c int) any { return mset{mapset.New[int]()} }},
	{"set of mapset", "map", "C05 C06 C07 C08 C31 K1 C33 M33", true, func(s *sys, i, c int) any { return wset{set.NewMapset[int]()} }},
	{"set of hashset", "map", "C05 C06 C07 C08 C31 K1 C33 M33", true, func(s *sys, i, c int) any { return wset{set.NewHashset(uint64(c), s.equals, s.hash)} }},
	{"set of both", "map", "C07 C08 C31 K1 C33 M33", true, func(s *sys, i, c int) any {
		if i%2 == 0 {
			return wset{set.NewMapset[int]()}
		}
		return wset{set.NewHashset(uint64(c), s.equals, s.hash)}
	}},
	{"interval", "map", "C02 C15 C16 C31 K1 C32 C33 M33", false, func(s *sys, i, c int) any { return &iv{interval.New[int, int](), c} }},
	{"bimap", "map", "C05 C18 C31 K1 C32 C33 M33", true, func(s *sys, i, c int) any { return &bi{} }},
	{"trie", "map", "C19 C20 C31 K1 C32 C33 M33", false, func(s *sys, i, c int) any { return &tr{trie.New[int]()} }},
	{"trie spread", "map", "C33 M33", true, func(s *sys, i, c int) any { return &spread{tr{trie.New[int]()}} }},
	{"multimap map slice, values", "map", "C17 C31m C33 M33", true, mm(0, true)},
	{"multimap map set, values", "map", "C17 C31m C33 M33", false, mm(1, true)},
	{"multimap avl slice, values", "map", "C17 C31m C33 M33", true, mm(2, true)},
	{"multimap avl set, values", "map", "C17 C31m C33 M33", false, mm(3, true)},
	{"multimap map slice, keys", "map", "C17 C31m C33 M33", true, mm(0, false)},
	{"multimap map set, keys", "map", "C17 C31m C33 M33", true, mm(1, false)},
	{"multimap avl slice, keys", "map", "C17 C31m C33 M33", false, mm(2, false)},
	{"multimap avl set, keys", "map", "C17 C31m C33 M33", false, mm(3, false)},
	{"heap", "map", "C14 C31 C32 C33", false, func(s *sys, i, c int) any { return bag{heap.New(s.less), s, i} }},
	{"cache", "lru", "C09 C10 C31 C32 C33", false, newCache},
	{"queue", "seq", "C05 C12 C31 C32 C33", false, newQueue},
	{"stack", "seq", "C05 C13 C31 C32 C33", false, newStack},
	{"list", "seq", "C11 C31 C33", false, newList},
	{"ulist", "seq", "C25 C26 C31 C33", false, newUList},
	{"rope", "seq", "C21 C22 C31 C32 C33", false, newRope},
	{"prope", "seq", "C23 C24 C31 C32 C33", false, newProp},
}

type hmap struct{ *hashmap.Map[int, int] }

func (m hmap) dup() kv { return hmap{m.Copy()} }

type hset struct{ *hashset.Set[int] }

func (m *hset) Put(k, _ int)          { m.Set.Put(k) }
func (m *hset) Get(k int) (int, bool) { return k, m.Has(k) }
func (m *hset) Each(f func(k, v int)) { m.Set.Each(func(k int) { f(k, k) }) }
func (m *hset) dup() kv               { return &hset{m.Copy()} }

type mset struct{ mapset.Set[int] }

func (m mset) Put(k, _ int)          { m.Set.Put(k) }
func (m mset) Get(k int) (int, bool) { return k, m.Has(k) }
func (m mset) Each(f func(k, v int)) { m.Set.Each(func(k int) { f(k, k) }) }

type wset struct{ set.Set[int] }

func (m wset) Put(k, _ int)          { m.Set.Put(k) }
func (m wset) Get(k int) (int, bool) { return k, m.Has(k) }
func (m wset) Each(f func(k, v int)) { m.Set.Each(func(k int) { f(k, k) }) }
func (m wset) dup() kv               { return wset{m.Clone()} }
func (m wset) alg(op string, inPlace bool, o algebra, copies int) algebra {
	b := []set.SetOf[int]{o.(wset).Set}
	for ; copies > 0; copies-- { // sets of their own, equal to the first
		b = append(b, o.(wset).Clone())
	}
	switch op {
	case "union":
		if inPlace {
			return wset{m.InPlaceUnion(b...)}
		}
		return wset{m.Union(b...)}
	case "inter":
		if inPlace {
			return wset{m.InPlaceIntersection(b...)}
		}
		return wset{m.Intersection(b...)}
	case "diff":
		if inPlace {
			return wset{m.InPlaceDifference(b...)}
		}
		return wset{m.Difference(b...)}
	}
	return wset{m.SymmetricDifference(b...)}
}

// of makes a container from initial values.
func (s *sys) of(o h.Obj) any {
	k, n, i, c := o.I("k"), o.I("n"), o.I("i"), uint64(o.I("c"))
	l := make([]int, 0, n)
	order(n, o.I("how"), func(x int) { l = append(l, k+x) })
	switch s.k.name {
	case "heap":
		if o.I("how")%2 == 0 {
			return bag{heap.FromSlice(s.less, l), s, i}
		}
		return bag{heap.From(s.less, l...), s, i}
	case "hashset":
		return &hset{hashset.Of(c, s.equals, s.hash, l...)}
	case "mapset":
		return mset{mapset.Of(l...)}
	case "set of mapset":
		return wset{set.NewMapset(l...)}
	case "set of hashset":
		return wset{set.NewHashset(c, s.equals, s.hash, l...)}
	case "bimap":
		m := map[int]int{}
		for _, x := range l {
			m[x] = x - k + o.I("v")
		}
		return &bi{bimap.Of(m)}
	}
	panic(h.Bad("of " + s.k.name))
}
func (m wset) rel(op string, o algebra) bool {
	b := o.(wset).Set
	switch op {
	case "eq":
		return m.Equal(b)
	case "sub":
		return m.IsSubset(b)
	case "sup":
		return m.IsSuperset(b)
	case "psub":
		return m.IsProperSubset(b)
	case "psup":
		return m.IsProperSuperset(b)
	}
	return m.IsDisjoint(b)
}

type iv struct {
	*interval.Tree[int, int]
	w int
}

func (t *iv) Put(k, v int) { t.Tree.Put(k, k+t.w, v) }
func (t *iv) Get(k int) (int, bool) {
	e, ok := t.Tree.Get(k)
	if ok && (e.Low != k || e.High != k+t.w) {
		return -1, true
	}
	return e.Val, ok
}
func (t *iv) Remove(k int) { t.Tree.Remove(k) }
func (t *iv) Each(f func(k, v int)) {
	t.Tree.Each(func(l, hi, v int) {
		if hi != l+t.w {
			f(-1, -1)
		}
		f(l, v)
	})
}
func (t *iv) over(k, n int) []any {
	p := [][2]int{}
	for _, e := range t.Tree.Overlaps(k, k+n) {
		if e.High != e.Low+t.w {
			return h.L(-1)
		}
		p = append(p, [2]int{e.Low, e.Val})
	}
	return runs(p)
}

type bi struct{ bimap.Bimap[int, int] }

func (b *bi) Put(k, v int)          { b.Add(k, v) }
func (b *bi) Get(k int) (int, bool) { return b.GetForward(k) }
func (b *bi) Remove(k int)          { b.RemoveForward(k) }
func (b *bi) Size() int             { return b.Len() }
func (b *bi) dup() kv               { return &bi{b.Copy()} }

// tr: the key is written in three bytes, most significant first.
type tr struct{ *trie.Trie[int] }

func bytes3(k int) string { return string([]byte{byte(k >> 16), byte(k >> 8), byte(k)}) }
func int3(s string) int {
	if len(s) != 3 {
		return -1
	}
	return int(s[0])<<16 | int(s[1])<<8 | int(s[2])
}
func (t *tr) Put(k, v int)          { t.Trie.Put(bytes3(k), v) }
func (t *tr) Get(k int) (int, bool) { return t.Trie.Get(bytes3(k)) }
func (t *tr) Remove(k int)          { t.Trie.Remove(bytes3(k)) }
func (t *tr) Each(f func(k, v int)) {
	for _, s := range t.Keys() {
		v, _ := t.Trie.Get(s)
		f(int3(s), v)
	}
}

// spread: the key is written least significant byte first.
type spread struct{ tr }

func turn(k int) int                    { return k&255<<16 | k&0xff00 | k>>16&255 }
func (t *spread) Put(k, v int)          { t.tr.Put(turn(k), v) }
func (t *spread) Get(k int) (int, bool) { return t.tr.Get(turn(k)) }
func (t *spread) Remove(k int)          { t.tr.Remove(turn(k)) }
func (t *spread) Each(f func(k, v int)) { t.tr.Each(func(k, v int) { f(turn(k), v) }) }

func (t *tr) prefix(k, n int) []any {
	p := bytes3(k)
	switch n {
	case 256:
		p = p[:2]
	case 65536:
		p = p[:1]
	}
	r := [][2]int{}
	for _, s := range t.KeysWithPrefix(p) {
		v, _ := t.Trie.Get(s)
		r = append(r, [2]int{int3(s), v})
	}
	return runs(r)
}

func (t *tr) longest(k int) []any {
	q := bytes3(k)
	switch t.LongestPrefix(q + "suffix") {
	case q:
		return h.L(1)
	case "":
		return h.L(0)
	}
	return h.L(-1)
}

// multi: one multimap for all instances; an instance is one of its keys, or
// one of its values.
type multi struct {
	m     multimap.MultiMap[int, int]
	i     int
	byVal bool
}

func mm(variant int, byVal bool) func(s *sys, i, c int) any {
	return func(s *sys, i, c int) any {
		if s.extra == nil {
			switch variant {
			case 0:
				s.extra = multimap.NewMapSlice[int, int]()
			case 1:
				s.extra = multimap.NewMapSet[int, int](s.less)
			case 2:
				s.extra = multimap.NewAvlSlice[int, int](s.less)
			case 3:
				s.extra = multimap.NewAvlSet[int, int](s.less, s.less)
			}
		}
		return &multi{s.extra.(multimap.MultiMap[int, int]), i, byVal}
	}
}

func (x *multi) Put(k, _ int) {
	if x.byVal {
		x.m.Put(x.i, k)
	} else {
		x.m.Put(k, x.i)
	}
}
func (x *multi) Get(k int) (int, bool) {
	if x.byVal {
		for _, v := range x.m.Get(x.i) {
			if v == k {
				return k, true
			}
		}
		return 0, false
	}
	for _, v := range x.m.Get(k) {
		if v == x.i {
			return k, x.m.Has(k)
		}
	}
	return 0, false
}
func (x *multi) Remove(k int) {
	if x.byVal {
		x.m.Remove(x.i, k)
	} else {
		x.m.Remove(k, x.i)
	}
}
func (x *multi) Size() int {
	if x.byVal {
		return x.m.Count(x.i)
	}
	n := 0
	x.m.Each(func(_, v int) {
		if v == x.i {
			n++
		}
	})
	return n
}
func (x *multi) Each(f func(k, v int)) {
	if x.byVal {
		for _, v := range x.m.Get(x.i) {
			f(v, v)
		}
		return
	}
	x.m.EachAssociation(func(k int, vs []int) {
		for _, v := range vs {
			if v == x.i {
				f(k, k)
			}
		}
	})
}
func (x *multi) Clear() { // one key, or one value of all keys
	if x.byVal {
		x.m.RemoveAll(x.i)
		return
	}
	ks := []int{}
	x.Each(func(k, _ int) { ks = append(ks, k) })
	for _, k := range ks {
		x.m.Remove(k, x.i)
	}
}

// bag: a heap.
type bag struct {
	*heap.Heap[int]
	s *sys
	i int
}

func (b bag) do(o h.Obj, op string) any {
	switch op {
	case "fill":
		order(o.I("n"), o.I("how"), func(x int) { b.Push(o.I("k") + x) })
	case "popmin":
		l := []int{}
		for x := 0; x < o.I("n"); x++ {
			if v, ok := b.Pop(); ok {
				l = append(l, v)
			}
		}
		return runs(same(l))
	case "min":
		return found(b.Peek())
	case "size":
		return h.L(b.Size())
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// lru: a cache with a log of what it drops.
type lru struct {
	*cache.Cache[int, int]
	log [][2]int
}

func newCache(s *sys, i, c int) any {
	l := &lru{Cache: cache.New[int, int](c)}
	l.SetEvictCallback(func(k, v int) {
		if len(l.log) < 1<<20 {
			l.log = append(l.log, [2]int{k, v})
		}
	})
	return l
}

func (c *lru) do(o h.Obj, op string) any {
	k, n := o.I("k"), o.I("n")
	if op == "putn" || op == "puto" || op == "rmn" || op == "resize" {
		c.log = nil
	}
	switch op {
	case "putn", "puto":
		for x := 0; x < n; x++ {
			c.Put(k+x, o.I("v")+x)
		}
		return runs(c.log)
	case "getn":
		p := [][2]int{}
		for x := k; x < k+n; x++ {
			if v, ok := c.Get(x); ok {
				p = append(p, [2]int{x, v})
			}
		}
		return runs(p)
	case "rmn":
		order(n, o.I("how"), func(x int) { c.Remove(k + x) })
		return runs(c.log)
	case "resize":
		c.Resize(n)
		return runs(c.log)
	case "size":
		return h.L(c.Size())
	case "cap":
		return h.L(c.Capacity())
	case "runs":
		p := [][2]int{}
		c.Each(func(k, v int) {
			if len(p) < 1<<21 {
				p = append(p, [2]int{k, v})
			}
		})
		return runs(turned(p))
	}
	panic(h.Bad("unknown op " + op))
}
