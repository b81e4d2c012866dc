// Conformance driver for package array2d (C05, C27, C28).
package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/h"

	"github.com/zyedidia/generic/array2d"
)

type sys[V any] struct {
	mk   func(int) V
	un   func(V) int
	inst map[int]array2d.Array2D[V]
	kept map[int][]V
}

// coord gives the far coordinates of the specification their real extremes.
func coord(o h.Obj, k string) int {
	switch x := o.I(k); x {
	case 2147483647:
		return math.MaxInt
	case -2147483647:
		return math.MinInt
	default:
		return x
	}
}

func (s *sys[V]) vals(q []V) []any {
	r := make([]any, len(q))
	for i := range q {
		r[i] = s.un(q[i])
	}
	return r
}

// parse takes the string form apart: numbers in nested brackets.
func parse(t string, height int) (r []any) {
	r = []any{}
	t = strings.TrimSpace(t)
	if len(t) < 2 || t[0] != '[' || t[len(t)-1] != ']' {
		return h.L(-1)
	}
	for _, row := range strings.SplitAfter(t[1:len(t)-1], "]") {
		row = strings.TrimSpace(row)
		if row == "" {
			continue
		}
		if row[0] != '[' || row[len(row)-1] != ']' {
			return h.L(-2)
		}
		l := []any{}
		for _, w := range strings.Fields(strings.ReplaceAll(row[1:len(row)-1], ",", " ")) {
			if w == "<nil>" {
				w = "0"
			}
			n, err := strconv.Atoi(w)
			if err != nil {
				return h.L(-3)
			}
			l = append(l, n)
		}
		r = append(r, l)
	}
	return r
}

func (s *sys[V]) Do(o h.Obj) any {
	i := o.I("i")
	a := s.inst[i]
	v := s.mk(o.I("v"))
	x, y, x1, x2, y1, y2 := coord(o, "x"), coord(o, "y"), coord(o, "x1"), coord(o, "x2"), coord(o, "y1"), coord(o, "y2")
	switch op := o.S("op"); op {
	case "new":
		s.inst[i] = array2d.New[V](o.I("w"), o.I("h"))
	case "newfilled":
		s.inst[i] = array2d.NewFilled(o.I("w"), o.I("h"), v)
	case "of":
		var rows [][]V
		for _, l := range o.IntLists("rows") {
			row := make([]V, len(l))
			for k := range l {
				row[k] = s.mk(l[k])
			}
			rows = append(rows, row)
		}
		s.inst[i] = array2d.OfJagged(o.I("w"), o.I("h"), rows)
		for y, row := range rows {
			for k := range row {
				row[k] = s.mk(-1)
			}
			rows[y] = nil
		}
	case "copy":
		s.inst[o.I("j")] = a.Copy()
		delete(s.kept, o.I("j"))
	case "get":
		return h.L(s.un(a.Get(x, y)))
	case "set":
		a.Set(x, y, v)
	case "fill":
		a.Fill(x1, y1, x2, y2, v)
	case "row":
		return s.vals(a.Row(y))
	case "span":
		return s.vals(a.RowSpan(x1, x2, y))
	case "wrow":
		a.Row(y)[o.I("k")] = v
	case "wspan":
		a.RowSpan(x1, x2, y)[o.I("k")] = v
	case "keeprow":
		s.kept[i] = a.Row(y)
		return s.vals(s.kept[i])
	case "keepspan":
		s.kept[i] = a.RowSpan(x1, x2, y)
		return s.vals(s.kept[i])
	case "kept":
		return s.vals(s.kept[i])
	case "wkept":
		s.kept[i][o.I("k")] = v
	case "all":
		r := []any{}
		for y := 0; y < a.Height(); y++ {
			l := []any{}
			for x := 0; x < a.Width(); x++ {
				l = append(l, s.un(a.Get(x, y)))
			}
			r = append(r, l)
		}
		return r
	case "str":
		return parse(a.String(), a.Height())
	case "dims":
		return h.L(a.Width(), a.Height())
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// Probe reads some cells.
func (s *sys[V]) Probe(r *rand.Rand) {
	for i := 1; i <= 3; i++ {
		a, ok := s.inst[i]
		if !ok || r.Intn(2) == 0 || a.Width() <= 0 || a.Height() <= 0 {
			continue
		}
		x, y := r.Intn(a.Width()), r.Intn(a.Height())
		a.Get(x, y)
		a.Row(y)
		a.RowSpan(x, r.Intn(a.Width()), y)
		_ = a.String()
		a.Copy()
	}
}

func record(r *h.Rec) {
	for hist := 0; hist < 20*r.Scale && !r.Stopped(); hist++ {
		r.Reset(r.Intn(3))
		dims := func() (int, int) {
			dim := func() int { return r.Pick(0, 1, 2, 3, 5, 8, 13, r.Intn(20), r.Intn(40)) }
			if hist%10 == 3 { // long and thin
				if r.Intn(2) == 0 {
					return r.Pick(255, 256, 257, 300, 1030), r.Intn(4)
				}
				return r.Intn(4), r.Pick(255, 256, 257, 300, 1030)
			}
			return dim(), dim()
		}
		W, H := map[int]int{}, map[int]int{}
		kept := map[int]int{}
		create := func(i int) {
			w, hh := dims()
			W[i], H[i], kept[i] = w, hh, 0
			switch r.Intn(3) {
			case 0:
				r.Do(h.Obj{"op": "new", "i": i, "w": w, "h": hh})
			case 1:
				r.Do(h.Obj{"op": "newfilled", "i": i, "w": w, "h": hh, "v": 1 + r.Intn(9)})
			default:
				rows := []any{}
				for y := r.Intn(hh + 3); y > 0; y-- {
					l := []any{}
					for x := r.Pick(0, w, w+1, r.Intn(w+3)); x > 0; x-- {
						l = append(l, 1+r.Intn(90))
					}
					rows = append(rows, l)
				}
				r.Do(h.Obj{"op": "of", "i": i, "w": w, "h": hh, "rows": rows})
			}
		}
		create(1)
		oob := 0.02
		if r.Focus == "bounds" {
			oob = 0.35
		}
		far := []int{-1, -2, -100, 1000, 2147483647, -2147483647}
		for st := 0; st < 120; st++ {
			if r.Intn(30) == 0 {
				create(1 + r.Intn(3))
			}
			ids := []int{}
			for i := 1; i <= 3; i++ {
				if _, ok := W[i]; ok {
					ids = append(ids, i)
				}
			}
			i := ids[r.Intn(len(ids))]
			w, hh := W[i], H[i]
			in := func(n int) int {
				if n == 0 || r.Float64() < oob {
					return r.Pick(-1, n, n+1, W[i], H[i], far[r.Intn(len(far))])
				}
				return r.Pick(0, n-1, r.Intn(n), r.Intn(n))
			}
			v := 100 + st
			ok := func(x, n int) bool { return x >= 0 && x < n }
			switch x := r.Intn(24); {
			case x < 5:
				r.Do(h.Obj{"op": "set", "i": i, "x": in(w), "y": in(hh), "v": v})
			case x < 10:
				r.Do(h.Obj{"op": "fill", "i": i, "x1": in(w), "y1": in(hh), "x2": in(w), "y2": in(hh), "v": v})
			case x < 12:
				if w > 0 {
					r.Do(h.Obj{"op": "wrow", "i": i, "y": in(hh), "k": r.Intn(w), "v": v})
				}
			case x < 15:
				x1, x2, y := in(w), in(w), in(hh)
				op := []string{"wspan", "span", "keepspan"}[r.Intn(3)]
				o := h.Obj{"op": op, "i": i, "x1": x1, "x2": x2, "y": y}
				all := ok(x1, w) && ok(x2, w) && ok(y, hh)
				if op == "wspan" {
					o["v"], o["k"] = v, 0
					if all {
						o["k"] = r.Intn(max(x1, x2) - min(x1, x2) + 1)
					}
				}
				if op == "keepspan" && all {
					kept[i] = max(x1, x2) - min(x1, x2) + 1
				}
				r.Do(o)
			case x < 16:
				y := in(hh)
				r.Do(h.Obj{"op": "keeprow", "i": i, "y": y})
				if ok(y, hh) {
					kept[i] = w
				}
			case x < 18:
				if kept[i] > 0 {
					r.Do(h.Obj{"op": "wkept", "i": i, "k": r.Intn(kept[i]), "v": v})
					r.Do(h.Obj{"op": "kept", "i": i})
				}
			case x < 19:
				j := 1 + r.Intn(3)
				if j != i {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
					W[j], H[j], kept[j] = w, hh, 0
				}
			case x < 22:
				r.Do(h.Obj{"op": "get", "i": i, "x": in(w), "y": in(hh)})
				r.Do(h.Obj{"op": "row", "i": i, "y": in(hh)})
			default:
			}
			if r.Intn(4) == 0 || st == 119 {
				for _, i := range ids {
					r.Do(h.Obj{"op": "dims", "i": i})
					r.Do(h.Obj{"op": "all", "i": i})
					r.Do(h.Obj{"op": "str", "i": i})
				}
			}
		}
	}
}

type num struct{ n int }

func (x num) String() string { return fmt.Sprint(x.n) }

// nums is a number that cannot be compared with ==.
type nums []int

func (x nums) String() string { return fmt.Sprint(x[0]) }

func mkAny(x int) any {
	switch {
	case x == 0:
		return nil
	case x%3 == 0:
		return nums{x}
	case x%3 == 1:
		return x
	}
	return &num{x}
}

func unAny(x any) int {
	switch x := x.(type) {
	case nil:
		return 0
	case nums:
		return x[0]
	case int:
		return x
	case *num:
		return x.n
	}
	return -98765
}

func main() {
	h.Main(&h.Driver{
		Variants: 3,
		New: func(v int) h.Sys {
			if v == 2 {
				return &sys[any]{mkAny, unAny, map[int]array2d.Array2D[any]{}, map[int][]any{}}
			}
			if v == 1 {
				return &sys[num]{func(x int) num { return num{x} }, func(x num) int { return x.n }, map[int]array2d.Array2D[num]{}, map[int][]num{}}
			}
			return &sys[int]{func(x int) int { return x }, func(x int) int { return x }, map[int]array2d.Array2D[int]{}, map[int][]int{}}
		},
		Record: record,
	})
}
