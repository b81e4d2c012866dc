// Conformance driver for package trie (C19, C20).
package main

import (
	"math/rand"

	"verif/harness/h"

	"github.com/zyedidia/generic/trie"
)

// Alphabets: how a behaviour's letters 1, 2, ... become bytes, in order.
var alphabets = [][]byte{
	[]byte("abcdefghij"),
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9},
	{0, 1, 126, 127, 128, 129, 194, 195, 254, 255},
	{65, 128, 191, 192, 195, 225, 226, 240, 254, 255},
}

// The last variant takes letters as bytes.
const raw = 4

type sys struct {
	v    int
	any  bool // values of interface type
	inst map[int]strMap
	seen []string
	res  h.Results
}

// strMap is a trie with numbers as values.
type strMap interface {
	h.OMap0[string]
	Contains(string) bool
	Keys() []string
	KeysWithPrefix(string) []string
	LongestPrefix(string) string
}

// boxed has values of interface type.
type boxed struct {
	*trie.Trie[any]
}

func (t boxed) Put(k string, v int) { t.Trie.Put(k, h.MkAny(v, 1)) }
func (t boxed) Get(k string) (int, bool) {
	v, ok := t.Trie.Get(k)
	if !ok && v == nil {
		return 0, false
	}
	return h.UnAny(v, 1), ok
}

// Probe reads something.
func (s *sys) Probe(r *rand.Rand) {
	t := s.inst[1]
	if len(s.seen) == 0 {
		return
	}
	k := s.seen[r.Intn(len(s.seen))]
	switch r.Intn(4) {
	case 0:
		k = k[:r.Intn(len(k)+1)]
	case 1:
		k += s.seen[r.Intn(len(s.seen))]
	}
	switch r.Intn(6) {
	case 0:
		t.Size()
	case 1:
		t.Get(k)
	case 2:
		t.Contains(k)
	case 3:
		t.Keys()
	case 4:
		t.KeysWithPrefix(k)
	case 5:
		t.LongestPrefix(k)
	}
}

func (s *sys) key(l []int) string {
	b := make([]byte, len(l))
	for i, c := range l {
		if s.v == raw {
			b[i] = byte(c)
		} else {
			b[i] = alphabets[s.v][c-1]
		}
	}
	return string(b)
}

func (s *sys) letters(k string) []any {
	r := []any{}
	for i := 0; i < len(k); i++ {
		n := -1
		if s.v == raw {
			n = int(k[i])
		} else {
			for j, c := range alphabets[s.v] {
				if c == k[i] {
					n = j + 1
				}
			}
		}
		r = append(r, n)
	}
	return r
}

func (s *sys) keys(q []string) []any {
	r := []any{}
	for _, k := range q {
		r = append(r, s.letters(k))
	}
	return h.Take(&s.res, q, func(k string) any { return k }, r)
}

func (s *sys) Do(o h.Obj) any {
	t := s.inst[o.I("i")]
	k := ""
	if o.Has("k") {
		k = s.key(o.Ints("k"))
		if h.Replaying {
			s.seen = append(s.seen, k)
		}
	}
	if x := h.Times(o); x > 0 && k != "" { // without effect in the end
		v, ok := t.Get(k)
		for ; x > 0; x-- {
			if ok {
				t.Remove(k)
				t.Put(k, v)
			} else {
				t.Put(k, -x)
				t.Remove(k)
			}
		}
	}
	switch op := o.S("op"); op {
	case "new":
		if s.any {
			s.inst[o.I("i")] = boxed{trie.New[any]()}
		} else {
			s.inst[o.I("i")] = trie.New[int]()
		}
	case "put":
		t.Put(k, o.I("v"))
	case "remove":
		t.Remove(k)
	case "get":
		v, ok := t.Get(k)
		return h.L(v, h.B(ok))
	case "has":
		return h.L(h.B(t.Contains(k)))
	case "size":
		return h.L(t.Size())
	case "keys":
		return s.keys(t.Keys())
	case "prefix":
		return s.keys(t.KeysWithPrefix(k))
	case "longest":
		return s.letters(t.LongestPrefix(k))
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

func ints(s string) []any {
	r := []any{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func record(r *h.Rec) {
	for hist := 0; hist < 16*r.Scale && !r.Stopped(); hist++ {
		r.Reset(raw + r.Intn(2))
		r.Do(h.Obj{"op": "new", "i": 1})
		letters := r.Pick(1, 2, 3, 8, 256)
		base := r.Pick(0, 97, 125, 200, 254)
		maxLen := r.Pick(1, 2, 3, 6, 20, 100, 300)
		r.Churn = 0
		if maxLen >= 100 {
			r.Churn = 1
		}
		maxSeen := r.Pick(60, 60, 60, 250)
		if letters == 1 && maxLen < 6 {
			maxLen = 12
		}
		var seen []string
		random := func() string {
			b := make([]byte, r.Intn(maxLen+1))
			for i := range b {
				b[i] = byte(base + r.Intn(letters))
			}
			return string(b)
		}
		// a related key: seen, a prefix or an extension of one, or new
		pick := func() string {
			if len(seen) == 0 || r.Intn(4) == 0 {
				return random()
			}
			k := seen[r.Intn(len(seen))]
			switch r.Intn(6) {
			case 0:
				return k[:r.Intn(len(k)+1)]
			case 1:
				return k + random()
			}
			return k
		}
		v := 0
		grow := 0.5
		left := 0
		for st := 0; st < 140+maxSeen; st++ {
			if left--; left < 0 {
				left = r.Intn(80)
				grow = []float64{0, 0.2, 0.5, 0.6, 0.9, 1}[r.Intn(6)]
			}
			switch x := r.Intn(30); {
			case x < 17:
				if r.Float64() < grow {
					v++
					k := pick()
					r.Do(r.Churned(h.Obj{"op": "put", "i": 1, "k": ints(k), "v": r.Pick(v, v, v, v-1, 0)}))
					if len(seen) < maxSeen {
						seen = append(seen, k)
					}
				} else {
					r.Do(r.Churned(h.Obj{"op": "remove", "i": 1, "k": ints(pick())}))
				}
			case x < 21:
				k := ints(pick())
				r.Do(h.Obj{"op": "get", "i": 1, "k": k})
				r.Do(h.Obj{"op": "has", "i": 1, "k": k})
			case x < 22:
				r.Do(h.Obj{"op": "size", "i": 1})
			case x < 25:
				r.Do(h.Obj{"op": "longest", "i": 1, "k": ints(pick())})
			case x < 29:
				r.Do(h.Obj{"op": "prefix", "i": 1, "k": ints(pick())})
			default:
				r.Do(h.Obj{"op": "keys", "i": 1})
			}
		}
		for _, k := range seen {
			r.Do(h.Obj{"op": "get", "i": 1, "k": ints(k)})
			r.Do(h.Obj{"op": "prefix", "i": 1, "k": ints(k)})
			r.Do(h.Obj{"op": "longest", "i": 1, "k": ints(k + "x")})
		}
		r.Do(h.Obj{"op": "keys", "i": 1})
		r.Do(h.Obj{"op": "size", "i": 1})
		for _, i := range r.Perm(len(seen)) {
			r.Do(h.Obj{"op": "remove", "i": 1, "k": ints(seen[i])})
			if i%4 == 0 {
				r.Do(h.Obj{"op": "keys", "i": 1})
			}
		}
		r.Do(h.Obj{"op": "keys", "i": 1})
		r.Do(h.Obj{"op": "size", "i": 1})
	}
}

func main() {
	h.Main(&h.Driver{
		Variants: raw,
		New:      func(v int) h.Sys { return &sys{min(v, raw), v == 2 || v > raw, map[int]strMap{}, nil, h.Results{}} },
		Record:   record,
	})
}
