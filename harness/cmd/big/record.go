package main

import (
	"strings"

	"verif/harness/h"
)

var has = strings.Contains

func record(r *h.Rec) {
	defer func(f string) { r.Focus = f }(r.Focus)
	ks := []int{}
	for x := range kinds {
		if kinds[x].serves(r.Focus) {
			ks = append(ks, x)
		}
	}
	r.Focus, _, _ = strings.Cut(r.Focus, ":")
	at := r.Intn(len(ks))
	for hist := 0; hist < r.Scale && !r.Stopped(); hist++ {
		va := ks[(at+hist)%len(ks)]
		r.Reset(va)
		g := &gen{r, &kinds[va], 1}
		switch {
		case strings.HasPrefix(r.Focus, "C31"):
			g.pars()
		case r.Focus == "C32":
			g.costs()
		case r.Focus == "C33":
			g.lives()
		case kinds[va].t == "lru":
			g.lru()
		case kinds[va].t == "seq" && has("rope prope", kinds[va].name):
			g.ropes()
		case kinds[va].t == "seq":
			g.seqs()
		case kinds[va].name == "heap":
			g.heap()
		default:
			g.maps()
		}
	}
}

type gen struct {
	*h.Rec
	k    *kind
	next int // unused values
}

func (g *gen) how() int { return g.Pick(0, 1, 2, 3, 7, 97, 65537) }

func (g *gen) vals(n int) int {
	v := g.next
	g.next += n + g.Intn(3)
	return v
}

// upto picks the size of the universe.
func (g *gen) upto(us ...int) int {
	if g.Thorough && g.Intn(6) == 0 {
		return g.Pick(300000, 400000, 530000)
	}
	return g.Pick(us...)
}

// size picks the length of a range.
func (g *gen) size(u int) int {
	n := g.Pick(1, 2, 60, 300, u/20, u/5, u/2, u, 32768, 65536)
	if n > u {
		n = u
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (g *gen) maps() {
	sets := has("hashset mapset", g.k.name) || has(g.k.name, "set of")
	algebras := has(g.k.name, "set of")
	multis := has(g.k.name, "multimap")
	copies := g.k.props[:3] == "C04" || algebras || g.k.name == "hashset" || g.k.name == "bimap"
	slices := has(g.k.name, "slice")
	u := g.upto(700, 3000, 20000, 70000, 70000, 140000)
	ni := 1
	if copies || multis {
		ni = 2 + g.Intn(2)
	}
	if slices && has(g.k.name, "values") && g.Intn(3) > 0 || multis && u > 20000 && ni > 2 {
		u = g.Pick(700, 3000, 10000)
	}
	c := g.Pick(0, 1, 7, 100, u, 3*u)
	if g.k.name == "interval" {
		c = g.Pick(1, 2, 10, u/10, u)
	}
	new := func(i int) { g.Do(h.Obj{"op": "new", "i": i, "t": "map", "c": c}) }
	ofs := has("hashset mapset bimap", g.k.name) || has("set of mapset set of hashset", g.k.name)
	for i := 1; i <= ni; i++ {
		new(i)
		if ofs && g.Intn(3) == 0 {
			n := g.size(u)
			k := g.Intn(u - n + 1)
			v := k
			if g.k.name == "bimap" {
				v = g.vals(n)
			}
			g.Do(h.Obj{"op": "of", "i": i, "k": k, "n": n, "v": v, "c": c, "how": g.how()})
		}
	}
	clears := !(g.k.name == "avl" || g.k.name == "btree" || g.k.name == "interval" || g.k.name == "trie")
	look := func(i, k, n int) {
		for x := 0; x < 5; x++ {
			q := []int{k, k - 1, k + n - 1, k + n, g.Intn(u)}[x]
			if q < 0 {
				continue
			}
			g.Do(h.Obj{"op": "get", "i": i, "k": q})
			if x == 0 && g.k.name == "avl" {
				g.Do(h.Obj{"op": "cost", "i": i, "k": q})
			}
		}
		g.Do(h.Obj{"op": "size", "i": i})
		switch g.k.name {
		case "avl":
			g.Do(h.Obj{"op": "height", "i": i})
		case "interval":
			g.Do(h.Obj{"op": "height", "i": i})
			g.Do(h.Obj{"op": "over", "i": i, "k": k, "n": g.Pick(0, 1, 5, n)})
			g.Do(h.Obj{"op": "over", "i": i, "k": k + n, "n": 1})
			g.Do(h.Obj{"op": "over", "i": i, "k": g.Intn(u), "n": g.Pick(1, 100, u)})
		case "trie":
			g.Do(h.Obj{"op": "longest", "i": i, "k": k})
			g.Do(h.Obj{"op": "prefix", "i": i, "k": g.Intn(u) / 256 * 256, "n": 256})
			if u < 20000 || g.Intn(4) == 0 {
				g.Do(h.Obj{"op": "prefix", "i": i, "k": g.Intn(u) / 65536 * 65536, "n": 65536})
			}
			g.Do(h.Obj{"op": "prefix", "i": i, "k": g.Intn(u), "n": 1})
		case "bimap":
			g.Do(h.Obj{"op": "rev", "i": i, "v": g.Intn(g.next + 1)})
		}
		if multis {
			g.Do(h.Obj{"op": "total", "i": 1})
			g.Do(h.Obj{"op": "dim", "i": 1, "keys": h.B(has(g.k.name, "values"))})
		}
	}
	budget := 3 * u
	for st := 0; st < 16 && budget > 0 && !g.Stopped(); st++ {
		i := 1 + g.Intn(ni)
		k, n := g.Intn(u), g.size(u)
		if k+n > u {
			k = u - n
		}
		x := g.Intn(20)
		if st == 0 {
			x = 0
		}
		switch {
		case x < 9:
			if slices { // duplicates are not followed here
				if g.Do(h.Obj{"op": "hits", "i": i, "k": k, "n": min(n, 300)}); n > 300 || g.Intn(2) == 0 {
					g.Do(h.Obj{"op": "clear", "i": i})
				} else {
					g.Do(h.Obj{"op": "drain", "i": i, "k": k, "n": n, "how": g.how()})
				}
			}
			v := k
			op := "fill"
			if g.k.name == "bimap" {
				op = "bfill"
				v = g.Pick(g.vals(n), k, k+1, max(0, k-n/2), g.Intn(u))
			} else if !sets && !multis {
				v = g.vals(n)
				if g.Intn(4) == 0 {
					v = k
				}
			}
			g.Do(h.Obj{"op": op, "i": i, "k": k, "n": n, "v": v, "how": g.how()})
			budget -= n
		case x < 14:
			if slices && has(g.k.name, "values") {
				n = min(n, 1500)
			}
			if g.k.name == "bimap" && g.Intn(2) == 0 {
				g.Do(h.Obj{"op": "bdrain", "i": i, "v": k, "n": n, "how": g.how()})
			} else {
				g.Do(h.Obj{"op": "drain", "i": i, "k": k, "n": n, "how": g.how()})
			}
			budget -= n / 2
		case x < 15 && clears:
			if multis && g.Intn(2) == 0 {
				g.Do(h.Obj{"op": "mclear", "i": 1})
			} else {
				g.Do(h.Obj{"op": "clear", "i": i})
			}
		case x < 18 && copies:
			j := 1 + g.Intn(3)
			if j > ni {
				ni++
				j = ni
			}
			op := "dup"
			o := h.Obj{"i": i, "j": j}
			if algebras && (g.Focus == "C07" || g.Focus == "C08") {
				op = []string{"union", "inter", "diff", "sym", "dup"}[g.Intn(5)]
				if op != "dup" {
					o["a"] = 1 + g.Intn(ni)
					if o.I("a") == ni && j == ni && ni > 1 { // may not exist yet
						o["a"] = i
					}
					if op != "sym" && g.Intn(2) == 0 {
						delete(o, "j")
						if j == ni { // it was to be new
							new(j)
						}
					}
				}
			} else if i == j {
				continue
			}
			if op == "dup" && i == j {
				continue
			}
			o["op"] = op
			if op != "dup" && g.Intn(2) == 0 {
				o["m"] = g.Pick(1, 2, 3, 31)
				if u <= 3000 {
					o["m"] = g.Pick(1, 2, 63, 255, 256, 257)
				}
			}
			g.Do(o)
		default:
			if g.Focus == "C08" {
				break
			}
			if multis {
				n = min(n, 1000)
			}
			g.Do(h.Obj{"op": "hits", "i": i, "k": k, "n": n})
		}
		look(i, k, n)
		if algebras && (g.Focus == "C07" || g.Focus == "C08") {
			a := 1 + g.Intn(ni)
			for _, op := range []string{"eq", "sub", "sup", "psub", "psup", "disj"} {
				g.Do(h.Obj{"op": op, "i": i, "a": a})
			}
		}
		if st%4 == 3 {
			for i := 1; i <= ni; i++ {
				g.Do(h.Obj{"op": "runs", "i": i})
			}
		}
	}
	for i := 1; i <= ni; i++ {
		g.Do(h.Obj{"op": "runs", "i": i})
		g.Do(h.Obj{"op": "size", "i": i})
	}
	// almost empty, and on from there
	if slices && has(g.k.name, "values") {
		g.Do(h.Obj{"op": "clear", "i": 1})
	}
	g.Do(h.Obj{"op": "drain", "i": 1, "k": 0, "n": u - 2, "how": g.how()})
	g.Do(h.Obj{"op": "runs", "i": 1})
	g.Do(h.Obj{"op": "drain", "i": 1, "k": u - 2, "n": 2, "how": 0})
	look(1, u-2, 2)
	g.Do(h.Obj{"op": "fill", "i": 1, "k": 3, "n": 50, "v": 3, "how": g.how()})
	if g.k.name == "bimap" { // the fill may have displaced pairs
		return
	}
	look(1, 3, 50)
	// many operands
	if algebras && g.Focus == "C07" {
		for _, m := range []int{g.Pick(1, 2, 127), 254, 255, 256, g.Pick(511, 512)} {
			o := h.Obj{"op": []string{"sym", "sym", "union", "inter", "diff"}[g.Intn(5)], "i": 1, "a": 1 + g.Intn(2), "j": 3, "m": m}
			if o.I("a") == 2 {
				g.Do(h.Obj{"op": "drain", "i": 2, "k": 20, "n": u, "how": 0})
			}
			g.Do(o)
			g.Do(h.Obj{"op": "runs", "i": 3})
			g.Do(h.Obj{"op": "sym", "i": 1, "a": 1, "j": 3, "m": m})
			g.Do(h.Obj{"op": "size", "i": 3})
		}
	}
	// many values of a key
	if multis && has(g.k.name, "values") && u < 70000 && g.Intn(2) == 0 {
		g.Do(h.Obj{"op": "clear", "i": 1})
		g.Do(h.Obj{"op": "fill", "i": 1, "k": 0, "n": 66000 + g.Intn(10000), "v": 0, "how": g.how()})
		g.Do(h.Obj{"op": "drain", "i": 1, "k": g.Intn(60000), "n": 5, "how": 0})
		look(1, 65535, 4)
	}
	for i := 1; i <= ni; i++ {
		g.Do(h.Obj{"op": "runs", "i": i})
	}
}

func (g *gen) heap() {
	u := g.upto(700, 3000, 70000, 140000)
	used := []bool{} // blocks of 1000 keys ever used
	fresh := func(n int) int {
		b := (n + 999) / 1000
		for try := 0; try < 40; try++ {
			at := g.Intn(2*u/1000 + 2)
			ok := true
			for x := at; x < at+b; x++ {
				for len(used) <= x {
					used = append(used, false)
				}
				ok = ok && !used[x]
			}
			if ok {
				for x := at; x < at+b; x++ {
					used[x] = true
				}
				return at * 1000
			}
		}
		return -1
	}
	g.Do(h.Obj{"op": "new", "i": 1, "t": "map", "c": 0})
	size := 0
	if n := g.size(u); g.Intn(2) == 0 {
		if g.Intn(2) == 0 {
			n = u
		}
		k := fresh(n)
		g.Do(h.Obj{"op": "of", "i": 1, "k": k, "v": k, "n": n, "c": 0, "how": g.how()})
		size = n
	}
	for st := 0; st < 20 && !g.Stopped(); st++ {
		n := g.size(u)
		switch x := g.Intn(8); {
		case x < 4 || size == 0:
			if k := fresh(n); k >= 0 {
				g.Do(h.Obj{"op": "fill", "i": 1, "k": k, "v": k, "n": n, "how": g.how()})
				size += n
			}
		default:
			if g.Intn(3) > 0 {
				n = min(n, size/2+1)
			}
			g.Do(h.Obj{"op": "popmin", "i": 1, "n": n})
			size = max(0, size-n)
		}
		g.Do(h.Obj{"op": "min", "i": 1})
		g.Do(h.Obj{"op": "size", "i": 1})
	}
	g.Do(h.Obj{"op": "popmin", "i": 1, "n": size})
	g.Do(h.Obj{"op": "min", "i": 1})
	g.Do(h.Obj{"op": "size", "i": 1})
}

func (g *gen) lru() {
	u := g.upto(700, 3000, 20000, 70000, 140000)
	cap := func() int { return g.Pick(0, 1, 100, u/7, u/2, u-1, u, 2*u, 32768, 65535, 65536) }
	g.Do(h.Obj{"op": "new", "i": 1, "t": "lru", "c": cap()})
	for st := 0; st < 24 && !g.Stopped(); st++ {
		k, n := g.Intn(u), g.size(u)
		switch x := g.Intn(10); {
		case x < 5:
			g.Do(h.Obj{"op": "putn", "i": 1, "k": k, "n": n, "v": g.vals(n)})
		case x < 7:
			g.Do(h.Obj{"op": "getn", "i": 1, "k": k, "n": n})
		case x < 8:
			g.Do(h.Obj{"op": "rmn", "i": 1, "k": k, "n": n / 2, "how": g.how()})
		default:
			g.Do(h.Obj{"op": "resize", "i": 1, "n": cap()})
		}
		g.Do(h.Obj{"op": "size", "i": 1})
		g.Do(h.Obj{"op": "cap", "i": 1})
		if st%3 == 2 {
			g.Do(h.Obj{"op": "runs", "i": 1})
		}
	}
	g.Do(h.Obj{"op": "runs", "i": 1})
	g.Do(h.Obj{"op": "resize", "i": 1, "n": 7})
	g.Do(h.Obj{"op": "runs", "i": 1})
	g.Do(h.Obj{"op": "resize", "i": 1, "n": 0})
	g.Do(h.Obj{"op": "size", "i": 1})
}

func (g *gen) seqs() {
	u := g.upto(700, 3000, 70000, 140000)
	c := 0
	if g.k.name == "ulist" {
		c = g.Pick(1, 2, 3, 16, 64, 1000, 4096)
		if c < 3 {
			u = min(u, 70000)
		}
	} else if g.k.name == "queue" {
		c = g.Intn(2)
	}
	ni := 1
	size := map[int]int{}
	g.Do(h.Obj{"op": "new", "i": 1, "t": "seq", "c": c})
	walks := g.k.name == "list" || g.k.name == "ulist"
	suffix := ""
	if g.k.name == "ulist" {
		suffix = "it"
	}
	for st := 0; st < 24 && !g.Stopped(); st++ {
		i := 1 + g.Intn(ni)
		n := g.size(u)
		if size[i] > 2*u {
			n = min(n, 100)
		}
		switch x := g.Intn(20); {
		case st == 0 || x < 7:
			if walks && g.Intn(2) == 0 {
				g.Do(h.Obj{"op": "front", "i": i, "n": n, "v": g.vals(n)})
			} else {
				g.Do(h.Obj{"op": "back", "i": i, "n": n, "v": g.vals(n)})
			}
			size[i] += n
		case walks && x < 12 && size[i] > 0:
			pos, side := g.Intn(size[i]), g.Intn(2)
			if side == 0 {
				pos++
			}
			g.Do(h.Obj{"op": "ins" + suffix, "i": i, "pos": pos, "side": side, "n": n, "v": g.vals(n)})
			size[i] += n
		case walks && size[i] > 0:
			pos := g.Intn(size[i])
			n = min(n, size[i]-pos)
			g.Do(h.Obj{"op": "del" + suffix, "i": i, "pos": pos, "n": n})
			size[i] -= n
		case x < 9 && g.k.name == "queue":
			g.Do(h.Obj{"op": "clear", "i": i})
			size[i] = 0
		case x < 14 && !walks:
			if g.Intn(3) > 0 {
				n = min(n, size[i]/2+1)
			}
			g.Do(h.Obj{"op": map[bool]string{true: "popf", false: "popb"}[g.k.name == "queue"], "i": i, "n": n})
			size[i] = max(0, size[i]-n)
		case x < 16 && g.Focus == "C05":
			j := 1 + g.Intn(4)
			if j > ni {
				ni++
				j = ni
			}
			if i != j {
				g.Do(h.Obj{"op": "dup", "i": i, "j": j})
				size[j] = size[i]
			}
		}
		for i := 1; i <= ni; i++ {
			g.seqLook(i)
		}
	}
	for i := 1; i <= ni; i++ {
		if g.k.name == "stack" {
			g.Do(h.Obj{"op": "popb", "i": i, "n": size[i] + 1})
		} else if g.k.name == "queue" {
			g.Do(h.Obj{"op": "popf", "i": i, "n": size[i] / 2})
		}
		g.seqLook(i)
	}
}

func (g *gen) seqLook(i int) {
	ops := map[string][]string{"queue": {"size", "peekf", "runs", "peekall"}, "stack": {"size", "peekb"},
		"list": {"runs", "back-runs"}, "ulist": {"size", "runs", "back-runs"}}[g.k.name]
	for _, op := range ops {
		g.Do(h.Obj{"op": op, "i": i})
	}
}

func (g *gen) ropes() {
	u := g.upto(700, 3000, 70000, 140000)
	p := g.k.name == "prope"
	sl := g.Pick(256, 4096*4, 100, 1000)
	if u > 3000 {
		sl = g.Pick(256, 4096*4, 4096*4, 1000, 40000)
	}
	g.Do(h.Obj{"op": "conf", "sl": sl, "jl": g.Pick(sl/2, sl/2, sl/10+1, sl), "rr": g.Pick(12, 15, 11, 40)})
	size := map[int]int{}
	alive := map[int]bool{}
	ni := 1
	fresh := func() int { ni++; return ni }
	g.Do(h.Obj{"op": "new", "i": 1, "t": "seq", "c": 0})
	alive[1] = true
	n := g.size(u)
	g.Do(h.Obj{"op": "back", "i": 1, "n": n, "v": g.vals(n)})
	size[1] = n
	pick := func() int {
		for {
			if i := 1 + g.Intn(ni); alive[i] {
				return i
			}
		}
	}
	look := func(i int, pos int) {
		n := size[i]
		g.Do(h.Obj{"op": "size", "i": i})
		for x := 0; x < 4 && n > 0; x++ {
			q := []int{pos - 1, pos, g.Intn(n), n - 1}[x]
			if q >= 0 && q < n {
				g.Do(h.Obj{"op": "at", "i": i, "pos": q})
				g.Do(h.Obj{"op": "slice", "i": i, "pos": q, "n": g.Intn(n - q + 1)})
			}
		}
		g.Do(h.Obj{"op": "runs", "i": i})
		if !p {
			g.Do(h.Obj{"op": "peekall", "i": i})
		}
	}
	for st := 0; st < 24 && !g.Stopped(); st++ {
		i := pick()
		n, pos := g.size(u), g.Intn(size[i]+1)
		if size[i] > 2*u {
			n = min(n, 100)
		}
		o := h.Obj{"i": i, "pos": pos}
		to := func(n int) int {
			j := i
			if p {
				j = fresh()
				o["j"] = j
				alive[j] = true
			}
			size[j] = n
			return j
		}
		switch x := g.Intn(20); {
		case x < 7:
			o["op"], o["n"], o["v"] = "ins", n, g.vals(n)
			i2 := to(size[i] + n)
			g.Do(o)
			look(i2, pos)
		case x < 12:
			n = min(n, size[i]-pos)
			o["op"], o["n"] = "del", n
			i2 := to(size[i] - n)
			g.Do(o)
			look(i2, pos)
		case x < 14:
			if p {
				o["op"] = "cutl"
				j := to(pos)
				g.Do(o)
				look(j, pos)
				o = h.Obj{"i": i, "pos": pos, "op": "cutr"}
				j = to(size[i] - pos)
				g.Do(o)
				look(j, 0)
			} else {
				j := fresh()
				alive[j] = true
				o["op"], o["j"] = "cut", j
				g.Do(o)
				size[i], size[j] = pos, size[i]-pos
				look(i, pos)
				look(j, 0)
			}
		case x < 16:
			a := pick()
			if !p && a == i || size[i]+size[a] > 4*u {
				continue
			}
			o["op"], o["a"] = "cat", a
			j := to(size[i] + size[a])
			g.Do(o)
			if !p {
				alive[a] = false // its nodes belong to the joined rope
			}
			look(j, size[j]/2)
		case x < 18:
			g.Do(h.Obj{"op": "rebal", "i": i})
			look(i, pos)
		default:
			g.Do(h.Obj{"op": "rebuild", "i": i})
			look(i, pos)
		}
	}
	for i := 1; i <= ni; i++ {
		if alive[i] {
			look(i, 0)
		}
	}
}

// pars: instance 1 is shared by all goroutines, instance 1+w belongs to w.
func (g *gen) pars() {
	u := g.upto(60, 300, 1000, 3000)
	nw := 2 + g.Intn(3)
	multis := has(g.k.name, "multimap")
	sets := has("hashset mapset", g.k.name) || has(g.k.name, "set of")
	alg := has(g.k.name, "set of")
	ofs := has("hashset mapset bimap", g.k.name) || has("set of mapset set of hashset", g.k.name)
	dups := sets && g.k.name != "mapset" || has("bimap queue stack", g.k.name) || has(g.k.name, "hashmap")
	c := g.Pick(0, 1, 7, 100)
	switch g.k.t {
	case "lru":
		c = g.Pick(1, u/2, u)
	case "seq":
		c = g.Pick(1, 2, 7, 64)
	}
	if g.k.name == "interval" || g.k.name == "queue" {
		c++
	}
	size := make([]int, nw+2)
	for i := 1; i <= nw+1; i++ {
		g.Do(h.Obj{"op": "new", "i": i, "t": g.k.t, "c": c})
	}
	rng := func() (int, int) {
		n := g.Pick(1, 2, u/20+1, u/2, u)
		return g.Intn(u - n + 1), n
	}
	// read returns a step that only reads instance i.
	read := func(i int) h.Obj {
		k, n := rng()
		pick := func(l ...string) h.Obj { return h.Obj{"op": l[g.Intn(len(l))], "i": i, "k": k, "n": n} }
		switch g.k.name {
		case "heap":
			return pick("min", "size")
		case "cache":
			return pick("size", "cap", "runs")
		case "queue":
			return pick("size", "peekf", "runs", "peekall")
		case "stack":
			return pick("size", "peekb")
		case "list":
			return pick("runs", "back-runs")
		case "ulist":
			return pick("size", "runs", "back-runs")
		case "rope", "prope":
			if n := size[i]; n > 0 && g.Intn(3) > 0 {
				pos := g.Intn(n)
				return h.Obj{"op": []string{"at", "slice"}[g.Intn(2)], "i": i, "pos": pos, "n": g.Intn(n - pos + 1)}
			}
			if g.k.name == "prope" {
				return pick("size", "runs")
			}
			return pick("size", "runs", "peekall")
		case "interval":
			return pick("get", "hits", "over", "over", "size", "runs")
		case "trie":
			return pick("get", "hits", "longest", "size", "runs")
		case "bimap":
			o := pick("get", "hits", "rev", "size", "runs")
			o["v"] = k
			return o
		}
		if alg && g.Intn(3) == 0 {
			o := pick("eq", "sub", "sup", "psub", "psup", "disj")
			o["a"] = 1
			return o
		}
		return pick("get", "hits", "hits", "size", "runs")
	}
	// write returns a step that changes instance i only.
	write := func(i int) h.Obj {
		k, n := rng()
		if g.k.t == "seq" {
			v := g.Intn(1000)
			switch x := g.Intn(5); {
			case x == 0 && dups && i > 1:
				size[i] = size[1]
				return h.Obj{"op": "dup", "i": 1, "j": i}
			case g.k.name == "prope" && i > 1:
				pos := g.Intn(size[1] + 1)
				o := h.Obj{"i": 1, "j": i, "pos": pos}
				switch x {
				case 0, 1:
					o["op"], o["n"], o["v"] = "ins", n, v
					size[i] = size[1] + n
				case 2:
					o["op"], o["n"] = "del", g.Intn(size[1]-pos+1)
					size[i] = size[1] - o.I("n")
				case 3:
					o["op"] = []string{"cutl", "cutr"}[g.Intn(2)]
					size[i] = pos
					if o.S("op") == "cutr" {
						size[i] = size[1] - pos
					}
				default:
					o["op"], o["a"] = "cat", 1
					size[i] = 2 * size[1]
				}
				return o
			case x < 3 || size[i] == 0:
				o := h.Obj{"op": "back", "i": i, "n": n, "v": v}
				if g.k.name == "rope" || g.k.name == "prope" {
					o["op"], o["pos"] = "ins", g.Intn(size[i]+1)
				} else if (g.k.name == "list" || g.k.name == "ulist") && g.Intn(2) == 0 {
					o["op"] = "front"
				}
				size[i] += n
				return o
			default:
				n = 1 + g.Intn(size[i])
				o := h.Obj{"i": i, "n": n, "pos": 0}
				switch g.k.name {
				case "queue":
					o["op"] = "popf"
				case "stack":
					o["op"] = "popb"
				case "ulist":
					o["op"] = "delit"
				default:
					o["op"] = "del"
				}
				size[i] -= n
				return o
			}
		}
		if g.k.t == "lru" {
			switch g.Intn(4) {
			case 0:
				return h.Obj{"op": "rmn", "i": i, "k": k, "n": n, "how": g.how()}
			case 1:
				return h.Obj{"op": "getn", "i": i, "k": k, "n": n}
			}
			return h.Obj{"op": "putn", "i": i, "k": k, "n": n, "v": g.Intn(1000)}
		}
		if g.k.name == "heap" {
			if g.Intn(4) == 0 {
				size[i] += n
				return h.Obj{"op": "of", "i": i, "k": size[i] - n, "v": size[i] - n, "n": n, "c": c, "how": g.how()}
			}
			if g.Intn(2) == 0 {
				return h.Obj{"op": "popmin", "i": i, "n": n}
			}
			size[i] += n // entries enter once: above all others
			return h.Obj{"op": "fill", "i": i, "k": size[i] - n, "v": size[i] - n, "n": n, "how": g.how()}
		}
		o := h.Obj{"op": "fill", "i": i, "k": k, "v": k, "n": n, "how": g.how()}
		if ofs && g.Intn(8) == 0 {
			o["op"], o["c"] = "of", c
			return o
		}
		switch x := g.Intn(8); {
		case x < 2:
			o["op"] = "drain"
		case x == 2 && alg && i > 1:
			return h.Obj{"op": []string{"union", "inter", "diff", "sym"}[g.Intn(4)], "i": 1, "a": []int{1, i}[g.Intn(2)], "j": i}
		case x == 3 && alg && i > 1:
			return h.Obj{"op": []string{"union", "inter", "diff"}[g.Intn(3)], "i": i, "a": 1}
		case x == 4 && dups && i > 1 && alg: // copying another kind of copy-on-write container writes to the original
			return h.Obj{"op": "union", "i": i, "a": 1}
		}
		return o
	}
	clears := g.k.t == "map" && has("bimap hashmap hashset mapset", g.k.name)
	for round := 0; round < 4 && !g.Stopped(); round++ {
		for i := 1; i <= nw+1; i++ {
			for n := 1 + g.Intn(2); n > 0; n-- {
				if multis && has(g.k.name, "slice") {
					g.Do(h.Obj{"op": "clear", "i": i})
				}
				g.Do(write(i))
			}
			if dups && i > 1 && g.Intn(2) == 0 { // a copy, used on its own from here on
				g.Do(h.Obj{"op": "dup", "i": 1, "j": i})
				size[i] = size[1]
			}
		}
		for rep := 0; rep < 3; rep++ {
			ws := []any{}
			for w := 1; w <= nw; w++ {
				p := []any{}
				for x := 1 + g.Intn(6); x > 0; x-- {
					switch {
					case g.Intn(2) == 0:
						p = append(p, map[string]any(read(1)))
					case multis:
						p = append(p, map[string]any(read(1+g.Intn(nw+1))))
					case g.Intn(3) == 0:
						p = append(p, map[string]any(read(w+1)))
					case clears && g.Intn(6) == 0:
						p = append(p, map[string]any(h.Obj{"op": "clear", "i": w + 1}))
					default:
						p = append(p, map[string]any(write(w+1)))
					}
				}
				ws = append(ws, p)
			}
			g.Do(h.Obj{"op": "par", "ws": ws})
		}
		for i := 1; i <= nw+1; i++ {
			if g.k.name != "heap" && g.k.name != "stack" {
				g.Do(h.Obj{"op": "runs", "i": i})
			}
		}
	}
}
