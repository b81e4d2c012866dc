// Conformance driver for the hash helpers of package generic (C30).
package main

import (
	"bytes"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
)

type call struct {
	h    uint64
	kept bool
}

type sys struct {
	calls []call
	n     int
}

func limbs(u uint64) []any {
	return h.L(int(u>>48), int(u>>32&0xffff), int(u>>16&0xffff), int(u&0xffff))
}

func num(l []int) uint64 {
	if len(l) != 4 {
		panic(h.Bad("not four limbs"))
	}
	return uint64(l[0])<<48 | uint64(l[1])<<32 | uint64(l[2])<<16 | uint64(l[3])
}

// store puts the bytes into fresh storage: st shifts them within a buffer
// whose other bytes differ from call to call, and leaves spare capacity.
func (s *sys) store(v []int, st int) []byte {
	if len(v) == 0 && st == 0 {
		return nil
	}
	spare := 2 * st
	if st >= 8 {
		spare += 3 * len(v)
	}
	buf := make([]byte, st+len(v)+spare)
	for i := range buf {
		buf[i] = byte(i*31 + s.n*17 + st)
	}
	for i, x := range v {
		buf[st+i] = byte(x)
	}
	if st == 0 {
		return buf[:len(v):len(v)]
	}
	return buf[st : st+len(v)]
}

func (s *sys) hash(f string, v []int, st int) (uint64, bool) {
	s.n++
	switch f {
	case "bytes":
		b := s.store(v, st)
		all := append([]byte(nil), b[:cap(b)]...)
		x := g.HashBytes(b)
		return x, bytes.Equal(all, b[:cap(b)])
	case "string":
		t := string(s.store(v, 0))
		if st > 0 {
			p := strings.Repeat("~", st+s.n%8)
			t = (p + t + p)[len(p) : len(p)+len(t)]
		}
		keep := strings.Clone(t)
		x := g.HashString(t)
		return x, t == keep
	}
	u := num(v)
	switch f {
	case "uint64":
		return g.HashUint64(u), true
	case "uint32":
		return g.HashUint32(uint32(u)), true
	case "uint16":
		return g.HashUint16(uint16(u)), true
	case "uint8":
		return g.HashUint8(uint8(u)), true
	case "int64":
		return g.HashInt64(int64(u)), true
	case "int32":
		return g.HashInt32(int32(u)), true
	case "int16":
		return g.HashInt16(int16(u)), true
	case "int8":
		return g.HashInt8(int8(u)), true
	case "int":
		return g.HashInt(int(u)), true
	case "uint":
		return g.HashUint(uint(u)), true
	}
	panic(h.Bad("unknown helper " + f))
}

// together calls the helper from several goroutines at once, with this and
// with other values, and reports whether every call gave what it gave alone.
func (s *sys) together(o h.Obj, want uint64) bool {
	f, v := o.S("f"), o.Ints("v")
	other := append([]int{}, v...)
	for i := range other {
		other[i] ^= 1
	}
	want2, _ := (&sys{}).hash(f, other, 0)
	var wg sync.WaitGroup
	var bad atomic.Bool
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t := &sys{n: w}
			for n := 0; n < 200; n++ {
				q, e := v, want
				if (n+w)%2 == 0 {
					q, e = other, want2
				}
				if x, kept := t.hash(f, q, w%3); x != e || !kept {
					bad.Store(true)
				}
			}
		}(w)
	}
	wg.Wait()
	return !bad.Load()
}

func (s *sys) Do(o h.Obj) any {
	switch op := o.S("op"); op {
	case "hash":
		x, kept := s.hash(o.S("f"), o.Ints("v"), o.I("st"))
		if !h.Replaying && s.n%32 == 0 && !s.together(o, x) {
			kept = false
		}
		s.calls = append(s.calls, call{x, kept})
		return append(limbs(x), h.B(kept))
	case "same":
		return h.L(h.B(s.calls[o.I("x")-1].h == s.calls[o.I("y")-1].h))
	case "kept":
		return h.L(h.B(s.calls[o.I("x")-1].kept))
	default:
		panic(h.Bad("unknown op " + op))
	}
}

var ints = []string{"uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "int", "uint"}

// value is one of the values of the type, extended to 64 bits as Go does it.
func value(r *h.Rec, f string) []any {
	u := r.Uint64()
	switch r.Intn(4) {
	case 0:
		u = uint64(int64(r.Intn(5) - 2))
	case 1:
		u = 1 << r.Intn(64)
	case 2:
		u = -(1 << r.Intn(64))
	}
	switch f {
	case "uint32":
		u = uint64(uint32(u))
	case "uint16":
		u = uint64(uint16(u))
	case "uint8":
		u = uint64(uint8(u))
	case "int32":
		u = uint64(int32(u))
	case "int16":
		u = uint64(int16(u))
	case "int8":
		u = uint64(int8(u))
	}
	return limbs(u)
}

func record(r *h.Rec) {
	for hist := 0; hist < 4*r.Scale; hist++ {
		history(r)
	}
}

func history(r *h.Rec) {
	r.Reset(0)
	type key struct {
		f string
		v []any
	}
	var seen []key
	str := []string{"string", "bytes"}
	for n := 0; n < 1000 && !r.Stopped(); n++ {
		var k key
		switch x := r.Intn(10); {
		case x < 5 && len(seen) > 0:
			k = seen[r.Intn(len(seen))]
			if k.f == "string" || k.f == "bytes" {
				k.f = str[r.Intn(2)]
			}
		case x < 7:
			k.f = ints[r.Intn(len(ints))]
			k.v = value(r, k.f)
		default:
			k.f = str[r.Intn(2)]
			k.v = []any{}
			for c := r.Pick(0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, r.Intn(40), r.Intn(300)); c > 0; c-- {
				k.v = append(k.v, r.Pick(0, 255, 97, r.Intn(256)))
			}
		}
		if len(seen) < 200 {
			seen = append(seen, k)
		}
		if n%250 == 249 {
			runtime.GC()
		}
		r.Do(h.Obj{"op": "hash", "f": k.f, "v": k.v, "st": r.Intn(10)})
	}
}

func main() {
	h.Main(&h.Driver{New: func(v int) h.Sys { return &sys{} }, Record: record})
}
