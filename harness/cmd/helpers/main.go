// Conformance driver for the ordering helpers of package generic (C29).
package main

import (
	"fmt"
	"math"

	"golang.org/x/exp/constraints"

	"verif/harness/h"

	g "github.com/zyedidia/generic"
)

func pair(o h.Obj, k string) [2]int {
	l := o.Ints(k)
	return [2]int{l[0], l[1]}
}

// ordered calls the helpers for naturally ordered types; mk is increasing in
// the rank, and un its inverse.
func ordered[T constraints.Ordered](o h.Obj, mk func([2]int) T, un func(T) []any) any {
	a, b := mk(pair(o, "a")), mk(pair(o, "b"))
	var c T
	if o.Has("c") {
		c = mk(pair(o, "c"))
	}
	switch o.S("op") {
	case "equals":
		return h.L(h.B(g.Equals(a, b)))
	case "less":
		return h.L(h.B(g.Less(a, b)))
	case "max":
		return un(g.Max(a, b))
	case "min":
		return un(g.Min(a, b))
	case "clamp":
		return un(g.Clamp(a, b, c))
	}
	return by(o, a, b, c, g.Less[T], un)
}

// by calls the helpers taking a less function.
func by[T any](o h.Obj, a, b, c T, less g.LessFn[T], un func(T) []any) any {
	switch op := o.S("op"); op {
	case "compare":
		return h.L(g.Compare(a, b, less))
	case "maxf":
		return un(g.MaxFunc(a, b, less))
	case "minf":
		return un(g.MinFunc(a, b, less))
	case "clampf":
		return un(g.ClampFunc(a, b, c, less))
	default:
		panic(h.Bad("unknown op " + op))
	}
}

// table makes mk and un from an increasing list of values; ranks beyond it,
// and negative ones, are not in the domain.
func table[T constraints.Ordered](o h.Obj, vals ...T) any {
	return ordered(o, func(p [2]int) T { return vals[p[0]-1] }, func(v T) []any {
		for i := range vals {
			if vals[i] == v {
				return h.L(i+1, 1)
			}
		}
		return h.L(-99, 0)
	})
}

type elem struct{ rank, tag int }
type celsius float32
type name string

type sys struct{ v int }

func (s *sys) Do(o h.Obj) any {
	switch o.I("z") {
	case 0: // values with tags, and a less function
		mk := func(k string) elem {
			if !o.Has(k) {
				return elem{}
			}
			p := pair(o, k)
			return elem{p[0], p[1]}
		}
		a, b, c := mk("a"), mk("b"), mk("c")
		un := func(e elem) []any { return h.L(e.rank, e.tag) }
		switch s.v % 4 {
		case 1:
			return by(o, &a, &b, &c, func(x, y *elem) bool { return x.rank < y.rank }, func(e *elem) []any { return un(*e) })
		case 2: // a larger text orders first
			str := func(e elem) string { return fmt.Sprintf("%05d:%d", 50000-e.rank, e.tag) }
			return by(o, str(a), str(b), str(c), func(x, y string) bool { return x[:5] > y[:5] }, func(t string) []any {
				var r, g int
				fmt.Sscanf(t, "%05d:%d", &r, &g)
				return h.L(50000-r, g)
			})
		case 3: // absolute value
			num := func(e elem) [2]float64 { return [2]float64{-float64(e.rank), float64(e.tag)} }
			return by(o, num(a), num(b), num(c), func(x, y [2]float64) bool { return math.Abs(x[0]) < math.Abs(y[0]) }, func(f [2]float64) []any {
				return h.L(int(-f[0]), int(f[1]))
			})
		}
		return by(o, a, b, c, func(x, y elem) bool { return x.rank < y.rank }, un)
	case 1: // naturally ordered types
		switch s.v {
		case 0:
			return table[int](o, math.MinInt64, -1, 0, 1, math.MaxInt64-1, math.MaxInt64)
		case 1:
			return table[int8](o, -128, -1, 0, 1, 126, 127)
		case 2:
			return table[uint64](o, 0, 1, 1<<63-1, 1<<63, 1<<64-2, 1<<64-1)
		case 3:
			return table[string](o, "", "\x00", "A", "a", "aa", "\xff")
		case 4:
			return table[float64](o, math.Inf(-1), -1, 0, 5e-324, math.MaxFloat64, math.Inf(1))
		case 5:
			return table[celsius](o, -273.15, -1, 0, 0.5, 100, 100.5)
		case 6:
			return table[uint8](o, 0, 1, 127, 128, 254, 255)
		case 7:
			return table[name](o, "a", "a ", "ab", "b", "é", "日")
		default: // recorded histories: any ranks
			return ordered(o, func(p [2]int) int { return p[0] }, func(x int) []any { return h.L(x, 1) })
		}
	default: // floating point numbers with two zeros
		return ordered(o, func(p [2]int) float64 {
			if p[1] == 2 {
				return math.Copysign(0, -1)
			}
			return float64(p[0]) / 4
		}, func(x float64) []any {
			if x == 0 && math.Signbit(x) {
				return h.L(0, 2)
			}
			return h.L(int(x*4), 1)
		})
	}
}

func record(r *h.Rec) {
	r.Reset(8)
	for n := 0; n < 1500*r.Scale && !r.Stopped(); n++ {
		span := r.Pick(2, 5, 100, 20000)
		z := r.Pick(0, 0, 1, 2)
		e := func() [2]int {
			p := [2]int{r.Intn(span), 1}
			if z > 0 {
				p[0] -= span / 2
			}
			if z == 0 {
				p[1] = r.Intn(50)
			}
			if z == 2 && p[0] == 0 {
				p[1] = 1 + r.Intn(2)
			}
			return p
		}
		ops := []string{"compare", "maxf", "minf", "clampf", "clampf"}
		if z > 0 {
			ops = append(ops, "less", "max", "min", "clamp", "clamp")
		}
		if z == 1 {
			ops = append(ops, "equals")
		}
		op := ops[r.Intn(len(ops))]
		a, b, c := e(), e(), e()
		if b[0] > c[0] {
			b, c = c, b
		}
		if r.Intn(3) == 0 {
			a = [...][2]int{b, c}[r.Intn(2)]
			if z == 0 {
				a[1]++
			}
		}
		o := h.Obj{"op": op, "z": z, "a": h.L(a[0], a[1]), "b": h.L(b[0], b[1])}
		if op == "clamp" || op == "clampf" {
			o["c"] = h.L(c[0], c[1])
		}
		r.Do(o)
	}
}

func main() {
	h.Main(&h.Driver{Variants: 8, New: func(v int) h.Sys { return &sys{v} }, Record: record})
}
