// Conformance driver for how the hash helpers of package generic tell keys
// apart (C34).
package main

import (
	"sort"
	"strconv"
	"strings"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
)

// helpers hash the value of the type that has these bits.
var helpers = map[string]func(u uint64) uint64{
	"uint64": g.HashUint64,
	"uint32": func(u uint64) uint64 { return g.HashUint32(uint32(u)) },
	"uint16": func(u uint64) uint64 { return g.HashUint16(uint16(u)) },
	"uint8":  func(u uint64) uint64 { return g.HashUint8(uint8(u)) },
	"int64":  func(u uint64) uint64 { return g.HashInt64(int64(u)) },
	"int32":  func(u uint64) uint64 { return g.HashInt32(int32(u)) },
	"int16":  func(u uint64) uint64 { return g.HashInt16(int16(u)) },
	"int8":   func(u uint64) uint64 { return g.HashInt8(int8(u)) },
	"int":    func(u uint64) uint64 { return g.HashInt(int(u)) },
	"uint":   func(u uint64) uint64 { return g.HashUint(uint(u)) },
}

var width = map[string]int{"uint64": 64, "uint32": 32, "uint16": 16, "uint8": 8, "int64": 64, "int32": 32, "int16": 16, "int8": 8, "int": 64, "uint": 64}

func text(f string, t string) uint64 {
	if f == "string" {
		return g.HashString(t)
	}
	return g.HashBytes([]byte(t))
}

// hashes gives the hashes of a family of keys.
func hashes(o h.Obj) []uint64 {
	f, n, sh, mul := o.S("f"), o.I("n"), o.I("sh"), o.I("mul")
	l := o.Ints("base")
	if len(l) != 4 {
		panic(h.Bad("base"))
	}
	base := uint64(l[0])<<48 | uint64(l[1])<<32 | uint64(l[2])<<16 | uint64(l[3])
	r := make([]uint64, 0, n)
	switch o.S("fam") {
	case "step":
		for x := 0; x < n; x++ {
			r = append(r, helpers[f](base+uint64(x)*uint64(mul)<<sh))
		}
	case "bits":
		w := width[f]
		for a := 0; a < w; a++ {
			for b := a; b < w; b++ {
				r = append(r, helpers[f](base^(1<<a|1<<b)))
			}
		}
		r = append(r, helpers[f](base))
	case "number":
		fill := strings.Repeat("item/", sh/5+1)[:sh]
		for x := 0; x < n; x++ {
			t := fill + strconv.Itoa(l[3]+x*mul)
			if l[2]%2 == 1 {
				t += "." + fill
			}
			r = append(r, text(f, t))
		}
	case "byte":
		t := []byte(strings.Repeat("some words", sh/10+2)[:sh+2])
		a, b := l[3]%len(t), l[2]%len(t)
		if a == b {
			b = (a + 1) % len(t)
		}
		for x := 0; x < n; x++ {
			t[a], t[b] = byte(x*(2*mul+1)), byte(x>>8)
			r = append(r, text(f, string(t)))
		}
	default:
		panic(h.Bad("family"))
	}
	return r
}

type sys struct{}

func (s *sys) Do(o h.Obj) any {
	if o.S("op") != "spread" {
		panic(h.Bad("unknown op"))
	}
	hs := hashes(o)
	all := map[uint64]bool{}
	slots := map[uint64]int{}
	most := 0
	for _, x := range hs {
		all[x] = true
		s := x & (1<<o.I("b") - 1)
		slots[s]++
		most = max(most, slots[s])
	}
	if o.Has("lim") {
		lim := o.Ints("lim")
		return h.L(h.B(len(all) == lim[0]), h.B(len(slots) >= lim[1]), h.B(most <= lim[2]))
	}
	return h.L(len(all), len(slots), most)
}

func log2(n int) int {
	b := 0
	for 1<<b < n {
		b++
	}
	return b
}

func record(r *h.Rec) {
	fs := []string{"string", "bytes", "string", "bytes"}
	for f := range width {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	r.Reset(0)
	for n := 0; n < 40*r.Scale && !r.Stopped(); n++ {
		o := h.Obj{"op": "spread", "f": fs[r.Intn(len(fs))], "base": h.L(r.Intn(65536), r.Intn(65536), r.Intn(65536), r.Intn(65536)), "sh": 0, "mul": 1}
		w, isInt := width[o.S("f")]
		k := r.Pick(200, 256, 1000, 1024, 4096, 5000, 30000, 65536)
		switch {
		case !isInt:
			o["fam"] = []string{"number", "byte"}[r.Intn(2)]
			o["sh"] = r.Pick(r.Intn(13), r.Intn(13), r.Intn(400))
			o["mul"] = 1 + r.Intn(2000)
		case r.Intn(4) == 0 && w > 16:
			o["fam"] = "bits"
			k = 1 + w + w*(w-1)/2
		default:
			o["fam"] = "step"
			for w < log2(k) {
				k /= 2
			}
			o["sh"] = r.Intn(w - log2(k) + 1)
			m := w - log2(k) - o.I("sh")
			o["mul"] = 1 + r.Intn(1<<min(m, 20))
		}
		if k < 200 {
			continue
		}
		o["n"] = k
		o["b"] = min(24, log2(k)+r.Pick(0, 0, 1, 2))
		r.Do(o)
	}
}

func main() {
	h.Main(&h.Driver{New: func(v int) h.Sys { return &sys{} }, Record: record})
}
