// Conformance driver for package array2d at shapes of up to millions of cells
// (C05, C27, C28): every write paints a rectangle in one value, and the cells
// are reported as bands of equal rows of runs of equal values.
package main

import (
	"strconv"
	"strings"

	"verif/harness/h"

	"github.com/zyedidia/generic/array2d"
)

type sys struct{ inst map[int]array2d.Array2D[int] }

// row writes n values as runs [x1, x2, v], x counted from x0.
func row(x0, n int, at func(x int) int) []any {
	r := []any{}
	for x := 0; x < n && len(r) < 300; {
		v, y := at(x), x+1
		for y < n && at(y) == v {
			y++
		}
		r = append(r, h.L(x0+x, x0+y-1, v))
		x = y
	}
	return r
}

// bands writes rows as bands [y1, y2, row].
func bands(n int, at func(y int) []any) []any {
	r := []any{}
	var last []any
	from := 0
	for y := 0; y < n && len(r) < 300; y++ {
		q := at(y)
		if y > 0 && !h.Equal(q, last) {
			r = append(r, []any{from, y - 1, last})
			from = y
		}
		last = q
	}
	if n > 0 {
		r = append(r, []any{from, n - 1, last})
	}
	return r
}

func (s *sys) Do(o h.Obj) any {
	i := o.I("i")
	a := s.inst[i]
	x, y, x1, x2, y1, y2, v := o.I("x"), o.I("y"), o.I("x1"), o.I("x2"), o.I("y1"), o.I("y2"), o.I("v")
	switch op := o.S("op"); op {
	case "new":
		if v == 0 {
			s.inst[i] = array2d.New[int](o.I("w"), o.I("h"))
		} else {
			s.inst[i] = array2d.NewFilled(o.I("w"), o.I("h"), v)
		}
	case "jag":
		q := make([][]int, o.I("n"))
		for y := range q {
			q[y] = make([]int, o.I("m"))
			for x := range q[y] {
				q[y][x] = v
			}
		}
		s.inst[i] = array2d.OfJagged(o.I("w"), o.I("h"), q)
		for y := range q { // the array has its own cells
			for x := range q[y] {
				q[y][x] = -9
			}
		}
	case "copy":
		s.inst[o.I("j")] = a.Copy()
	case "paint":
		a.Fill(x1, y1, x2, y2, v)
	case "set":
		a.Set(x, y, v)
	case "wspan":
		q := a.RowSpan(x1, x2, y)
		for x := range q {
			q[x] = v
		}
	case "wrow":
		q := a.Row(y)
		for x := range q {
			q[x] = v
		}
	case "get":
		return h.L(a.Get(x, y))
	case "row":
		q := a.Row(y)
		return row(0, len(q), func(x int) int { return q[x] })
	case "span":
		q := a.RowSpan(x1, x2, y)
		return row(min(x1, x2), len(q), func(x int) int { return q[x] })
	case "dims":
		return h.L(a.Width(), a.Height())
	case "all":
		return bands(a.Height(), func(y int) []any { return row(0, a.Width(), func(x int) int { return a.Get(x, y) }) })
	case "rows":
		return bands(a.Height(), func(y int) []any { q := a.Row(y); return row(0, len(q), func(x int) int { return q[x] }) })
	case "str":
		return parse(a.String())
	default:
		panic(h.Bad("unknown op " + op))
	}
	return nil
}

// parse takes the string form apart: numbers in nested brackets.
func parse(t string) []any {
	t = strings.TrimSpace(t)
	if len(t) < 2 || t[0] != '[' || t[len(t)-1] != ']' {
		return h.L(-1)
	}
	rows := []any{}
	bad := false
	for _, q := range strings.SplitAfter(t[1:len(t)-1], "]") {
		q = strings.TrimSpace(q)
		if q == "" {
			continue
		}
		if q[0] != '[' || q[len(q)-1] != ']' {
			return h.L(-2)
		}
		w := strings.Fields(strings.ReplaceAll(q[1:len(q)-1], ",", " "))
		rows = append(rows, row(0, len(w), func(x int) int {
			n, err := strconv.Atoi(w[x])
			bad = bad || err != nil
			return n
		}))
	}
	if bad {
		return h.L(-3)
	}
	return bands(len(rows), func(y int) []any { return rows[y].([]any) })
}

func record(r *h.Rec) {
	for hist := 0; hist < r.Scale && !r.Stopped(); hist++ {
		r.Reset(0)
		side := func() int { return r.Pick(0, 1, 2, 3, 16, 40, 200, 255, 256, 257, 400, 700) }
		w, hh := side(), side()
		if r.Intn(4) == 0 { // long and narrow
			w, hh = r.Pick(1, 2, 3), r.Pick(32767, 32768, 65535, 65536, 65537, 70000)
			if r.Intn(2) == 0 {
				w, hh = hh, w
			}
		}
		if r.Thorough && r.Intn(6) == 0 {
			w, hh = r.Pick(1000, 1500, 1024), r.Pick(1000, 1024, 700)
		}
		ni := 1
		if r.Intn(2) == 0 {
			r.Do(h.Obj{"op": "new", "i": 1, "w": w, "h": hh, "v": r.Intn(3)})
		} else {
			r.Do(h.Obj{"op": "jag", "i": 1, "w": w, "h": hh, "n": r.Pick(0, 1, hh/2, hh, hh+1, hh+300), "m": r.Pick(0, 1, w/2, w, w+1, w+300), "v": 1 + r.Intn(3)})
		}
		co := func(n int) int {
			if n == 0 {
				return 0
			}
			return r.Pick(0, n-1, n/2, r.Intn(n), r.Intn(n))
		}
		reads := func(i int) {
			r.Do(h.Obj{"op": "dims", "i": i})
			for _, op := range []string{"all", "rows", "str"} {
				if op == "all" || r.Intn(6) == 0 {
					r.Do(h.Obj{"op": op, "i": i})
				}
			}
			if w > 0 && hh > 0 {
				r.Do(h.Obj{"op": "get", "i": i, "x": co(w), "y": co(hh)})
				r.Do(h.Obj{"op": "span", "i": i, "x1": co(w), "x2": co(w), "y": co(hh)})
				r.Do(h.Obj{"op": "row", "i": i, "y": co(hh)})
			}
		}
		reads(1)
		for st := 0; st < 14 && !r.Stopped(); st++ {
			i := 1 + r.Intn(ni)
			v := r.Intn(6)
			x1, x2, y1, y2 := co(w), co(w), co(hh), co(hh)
			if r.Focus == "bounds" || w == 0 || hh == 0 {
				for n := r.Intn(3); n > 0; n-- {
					switch far := r.Intn(4); far {
					case 0:
						x1 = r.Pick(-1, w, w+1, hh)
					case 1:
						x2 = r.Pick(-1, w, w+w, -w, hh)
					case 2:
						y1 = r.Pick(-1, hh, hh+1, w)
					case 3:
						y2 = r.Pick(-1, hh, hh+hh, -hh, w)
					}
				}
			}
			switch x := r.Intn(12); {
			case x < 5:
				r.Do(h.Obj{"op": "paint", "i": i, "x1": x1, "x2": x2, "y1": y1, "y2": y2, "v": v})
			case x < 7:
				r.Do(h.Obj{"op": "set", "i": i, "x": x1, "y": y1, "v": v})
			case x < 9:
				r.Do(h.Obj{"op": "wspan", "i": i, "x1": x1, "x2": x2, "y": y1, "v": v})
			case x < 10:
				r.Do(h.Obj{"op": "wrow", "i": i, "y": y1, "v": v})
			case x < 11:
				j := 1 + r.Intn(3)
				if j > ni {
					ni++
					j = ni
				}
				if i != j {
					r.Do(h.Obj{"op": "copy", "i": i, "j": j})
				}
			default:
				r.Do(h.Obj{"op": "get", "i": i, "x": x1, "y": y1})
				r.Do(h.Obj{"op": "span", "i": i, "x1": x1, "x2": x2, "y": y1})
				r.Do(h.Obj{"op": "row", "i": i, "y": y1})
			}
			reads(1 + r.Intn(ni))
		}
		for i := 1; i <= ni; i++ {
			reads(i)
		}
	}
}

func main() {
	h.Main(&h.Driver{
		New:    func(int) h.Sys { return &sys{inst: map[int]array2d.Array2D[int]{}} },
		Slow:   true,
		Record: record,
	})
}
