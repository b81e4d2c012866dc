package main

import (
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"verif/harness/h"
)

// work executes the steps qs and reports what they took.
func (s *sys) work(o h.Obj, what string) any {
	qs := []h.Obj{}
	for _, q := range o["qs"].([]any) {
		qs = append(qs, toObj(q))
	}
	run := func() {
		for _, q := range qs {
			s.Do(q)
		}
	}
	n := 0
	switch what {
	case "calls":
		s.calls, s.count = 0, true
		func() {
			defer func() { s.count = false }()
			run()
		}()
		n = s.calls
	case "mem":
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		run()
		runtime.ReadMemStats(&b)
		n = int(b.TotalAlloc - a.TotalAlloc)
	case "live":
		s.live() // what ran before leaves nothing to be freed
		a := s.live()
		for r := o.I("rep"); r > 0; r-- {
			run()
		}
		n = max(0, s.live()-a)
		runtime.KeepAlive(qs)
		runtime.KeepAlive(o)
		runtime.KeepAlive(s)
	case "cpu":
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		t := thread()
		run()
		n = thread() - t
	}
	if n > 2000000000 { // all the specification can read
		n = 2000000000
	}
	if o.Has("lim") {
		return h.L(h.B(n <= o.I("lim")))
	}
	return h.L(n)
}

// live returns how many bytes are reachable.
func (s *sys) live() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// thread returns the processor time of this thread in microseconds.
func thread() int {
	var u syscall.Rusage
	if syscall.Getrusage(1, &u) != nil { // RUSAGE_THREAD
		panic(h.Bad("getrusage"))
	}
	return int(u.Utime.Sec+u.Stime.Sec)*1000000 + int(u.Utime.Usec+u.Stime.Usec)
}

// costs records what operations take on containers of tens of thousands of
// entries.
func (g *gen) costs() {
	u := g.Pick(70000, 100000, 140000)
	if g.Thorough && g.Intn(4) == 0 {
		u = 400000
	}
	class := map[string]string{"avl": "tree", "btree": "btree", "heap": "heap", "hashmap": "hash", "hashset": "hash"}[g.k.name]
	name := g.k.name
	c := g.Pick(0, 1, 1000)
	switch name {
	case "cache":
		c = g.Pick(u/2, u)
	case "interval":
		c = g.Pick(1, 2, 10)
	case "rope", "prope":
		g.Do(h.Obj{"op": "conf", "sl": g.Pick(256, 512, 100), "jl": g.Pick(50, 100, 20), "rr": g.Pick(12, 15)})
	}
	g.Do(h.Obj{"op": "new", "i": 1, "t": g.k.t, "c": c})
	cost := func(what string, qs ...any) { g.Do(h.Obj{"op": what, "b": class, "qs": qs}) }
	q := func(o h.Obj) any {
		if !o.Has("i") {
			o["i"] = 1
		}
		return map[string]any(o)
	}
	if g.k.t == "seq" {
		g.seqCosts(u, cost, q)
		return
	}
	if g.k.t == "lru" {
		g.Do(h.Obj{"op": "putn", "i": 1, "k": 0, "n": u, "v": 5})
		for x := 0; x < 12; x++ {
			n := g.Pick(500, 1000, 2000)
			k := g.Intn(u)
			cost("cpu", q(h.Obj{"op": "putn", "k": k, "n": n, "v": g.Intn(1000)}))
			cost("cpu", q(h.Obj{"op": "getn", "k": g.Intn(u), "n": n}))
			cost("cpu", q(h.Obj{"op": "rmn", "k": g.Intn(u), "n": n, "how": g.how()}))
		}
		g.Do(h.Obj{"op": "size", "i": 1})
		return
	}
	lo, hi := 0, 0 // entries of a heap are lo..hi-1
	build := func(op string, n int) h.Obj {
		if name == "heap" {
			if op == "drain" {
				n = min(n, hi-lo)
				lo += n
				return h.Obj{"op": "popmin", "i": 1, "n": n}
			}
			hi += n
			return h.Obj{"op": "fill", "i": 1, "k": hi - n, "v": hi - n, "n": n, "how": g.how()}
		}
		k := g.Intn(u - n + 1)
		return h.Obj{"op": op, "i": 1, "k": k, "v": k, "n": n, "how": g.how()}
	}
	g.Do(build("fill", u*9/10))
	if class == "hash" && g.Intn(2) == 0 { // exactly at the size where the table grows
		g.Do(h.Obj{"op": "drain", "i": 1, "k": 0, "n": u, "how": g.how()})
		g.Do(h.Obj{"op": "fill", "i": 1, "k": 0, "v": 0, "n": g.Pick(8192, 16384), "how": g.how()})
	}
	for round := 0; round < 4 && !g.Stopped(); round++ {
		if round > 0 && g.Intn(2) == 0 {
			g.Do(build([]string{"drain", "drain", "fill"}[g.Intn(3)], g.Pick(u/2, u/10, u*3/4)))
		}
		for x := 0; x < 6; x++ {
			n := g.Pick(1, 2, 30, 300)
			if class != "" {
				cost("calls", q(build("fill", n)))
				cost("calls", q(build("drain", n)))
				if name != "heap" {
					cost("calls", q(build("hits", n)))
				}
				if class == "hash" {
					k := g.Intn(u)
					a, b := h.Obj{"op": "fill", "k": k, "v": k, "n": 2}, h.Obj{"op": "drain", "k": k, "n": 2}
					qs := []any{}
					for r := 0; r < 40; r++ {
						qs = append(qs, q(a), q(b))
					}
					cost("calls", qs...)
					cost("mem", q(h.Obj{"op": "dup", "j": 2}))
					cost("mem", q(h.Obj{"op": "dup", "j": 3}))
					cost("calls", q(h.Obj{"op": "dup", "i": 2, "j": 3}))
					cost("mem", q(h.Obj{"op": "dup", "i": 2, "j": 4}), q(h.Obj{"op": "dup", "i": 4, "j": 3}))
				}
			}
			n = g.Pick(300, 500, 1000)
			cost("cpu", q(build("fill", n)))
			cost("cpu", q(build("drain", n)))
			switch name {
			case "heap":
			case "interval":
				cost("cpu", q(build("hits", n)))
				qs := []any{}
				for r := 0; r < 200; r++ {
					qs = append(qs, q(h.Obj{"op": "over", "k": g.Intn(u+20) - 10, "n": g.Pick(1, 1, 3, 20)}))
				}
				cost("cpu", qs...)
			default:
				cost("cpu", q(build("hits", n)))
			}
		}
	}
	g.Do(h.Obj{"op": "size", "i": 1})
}

// seqCosts: queues, stacks and ropes.
func (g *gen) seqCosts(u int, cost func(string, ...any), q func(h.Obj) any) {
	name := g.k.name
	size := u
	if name == "queue" || name == "stack" {
		g.Do(h.Obj{"op": "back", "i": 1, "n": u, "v": 1})
		for x := 0; x < 6; x++ {
			n := g.Pick(100, 1000)
			cost("cpu", q(h.Obj{"op": "back", "n": n, "v": 7}))
			cost("cpu", q(h.Obj{"op": map[string]string{"queue": "popf", "stack": "popb"}[name], "n": n}))
		}
		g.Do(h.Obj{"op": "size", "i": 1})
		return
	}
	g.Do(h.Obj{"op": "back", "i": 1, "n": u, "v": 1})
	for x := 0; x < 60 && !g.Stopped(); x++ {
		n := g.Pick(1, 1, 2, 40, 300)
		pos := g.Intn(size + 1)
		var o h.Obj
		switch g.Intn(5) {
		case 0, 1:
			o = h.Obj{"op": "ins", "pos": pos, "n": n, "v": g.Intn(1000)}
			size += n
		case 2:
			n = min(n, size-pos)
			o = h.Obj{"op": "del", "pos": pos, "n": n}
			size -= n
		case 3:
			o = h.Obj{"op": "at", "pos": g.Intn(size)}
		default:
			o = h.Obj{"op": "slice", "pos": pos, "n": min(n, size-pos)}
		}
		cost("mem", q(o))
		if g.Intn(3) == 0 {
			qs := []any{}
			for r := 0; r < 60; r++ {
				qs = append(qs, q(h.Obj{"op": "at", "pos": g.Intn(size)}))
			}
			pos = g.Intn(size - 100)
			for r := 0; r < 20; r++ {
				qs = append(qs, q(h.Obj{"op": "ins", "pos": pos, "n": 1, "v": r}), q(h.Obj{"op": "del", "pos": pos, "n": 1}), q(h.Obj{"op": "slice", "pos": pos, "n": 3}))
			}
			cost("cpu", qs...)
		}
		if name == "prope" && g.Intn(3) == 0 { // versions
			pos := g.Intn(size - 400)
			cost("mem", q([]h.Obj{
				{"op": "ins", "j": 2, "pos": pos, "n": n, "v": 3}, {"op": "del", "j": 2, "pos": pos, "n": g.Pick(1, 40, 300)},
				{"op": "cutl", "j": 2, "pos": pos}, {"op": "cutr", "j": 2, "pos": pos}, {"op": "cat", "j": 2, "a": 1}}[g.Intn(5)]))
		}
	}
	g.Do(h.Obj{"op": "size", "i": 1})
}

// lives records how much stays reachable after many changes to containers
// that never hold much.
func (g *gen) lives() {
	name := g.k.name
	w := g.Pick(50, 100, 400)
	total := g.Pick(60000, 100000)
	if g.Thorough {
		total *= 3
	}
	c := g.Pick(0, 1, 1000)
	switch {
	case name == "cache":
		c = g.Pick(w, 2*w, 3*w)
	case name == "interval":
		c = g.Pick(1, 2, 10)
	case name == "ulist":
		c = g.Pick(1, 4, 64)
	case has("rope prope", name):
		g.Do(h.Obj{"op": "conf", "sl": g.Pick(256, 512, 100), "jl": g.Pick(50, 100, 20), "rr": g.Pick(12, 15)})
	}
	ni := 1
	if has(name, "multimap") {
		ni = 2
	}
	for i := 1; i <= 2; i++ {
		g.Do(h.Obj{"op": "new", "i": i, "t": g.k.t, "c": c})
	}
	for round := 0; round < 3 && !g.Stopped(); round++ {
		i := 1 + g.Intn(ni)
		size, next := 0, g.Pick(0, 1<<20) // keys go up from next
		qs := []any{}
		do := func(o h.Obj) {
			if !o.Has("i") {
				o["i"] = i
			}
			qs = append(qs, map[string]any(o))
		}
		rep := 1
		one := g.Pick(0, 1, 2)
		if round == 2 {
			g.lookups(w, c, i, next, do)
			rep = g.Pick(40, 80)
		}
		for n := 0; round < 2 && n < total; n += w {
			if g.Thorough == false && len(qs) >= 400 || len(qs) >= 900 {
				rep = total / n
				break
			}
			g.churn(one, w, c, &size, &next, do)
		}
		if round < 2 {
			g.settle(size, next, w, c, do)
		}
		g.Do(h.Obj{"op": "live", "b": name, "rep": rep, "qs": qs})
		if name != "stack" && name != "heap" {
			g.Do(h.Obj{"op": "runs", "i": i})
		}
	}
}

// lookups fills a container a little, and looks things up, copies it and
// derives others from it.
func (g *gen) lookups(w, c, i, next int, do func(h.Obj)) {
	name, first := g.k.name, strings.Fields(g.k.name)[0]
	few := g.Pick(5, 20)
	var look []h.Obj
	switch {
	case g.k.t == "lru":
		g.Do(h.Obj{"i": i, "op": "putn", "k": next, "n": few, "v": next})
		look = []h.Obj{{"op": "getn", "n": 200}, {"op": "runs"}, {"op": "size"}}
	case g.k.t == "map":
		g.Do(h.Obj{"i": i, "op": "fill", "k": next, "v": next, "n": few, "how": 0})
		look = []h.Obj{{"op": "hits", "n": 100}}
		switch {
		case name == "heap":
			look = []h.Obj{{"op": "min"}, {"op": "size"}}
		case name == "interval":
			look = append(look, h.Obj{"op": "overn", "n": 200}, h.Obj{"op": "over", "n": 30})
		case name == "trie":
			look = append(look, h.Obj{"op": "longestn", "n": 200}, h.Obj{"op": "prefix", "n": 1})
		case first == "set":
			look = nil
			for _, op := range []string{"union", "inter", "diff", "sym"} {
				look = append(look, h.Obj{"op": op, "a": 1, "j": 2}, h.Obj{"op": "eq", "a": 1})
			}
		}
		if name != "heap" && first != "multimap" {
			look = append(look, h.Obj{"op": "runs"})
		}
		if has("hashmap hashset set bimap", first) {
			look = append(look, h.Obj{"op": "dup", "j": 2}, h.Obj{"op": "dup", "j": 2})
		}
	case name == "rope" || name == "prope":
		g.Do(h.Obj{"i": i, "op": "ins", "pos": 0, "n": 3 * w, "v": 0})
		look = []h.Obj{{"op": "slice", "pos": 1, "n": w}, {"op": "at", "pos": w}, {"op": "runs"}}
		if name == "prope" {
			look = append(look, h.Obj{"op": "ins", "pos": w, "n": few, "v": 1, "j": 2}, h.Obj{"op": "del", "pos": w, "n": few, "j": 2},
				h.Obj{"op": "cutl", "pos": w, "j": 2}, h.Obj{"op": "cutr", "pos": w, "j": 2}, h.Obj{"op": "cat", "a": 1, "j": 2})
		}
	default:
		g.Do(h.Obj{"i": i, "op": "back", "n": few, "v": 1})
		look = []h.Obj{{"op": "runs"}}
		if name == "stack" {
			look = nil
		}
		if has("list ulist", name) {
			look = append(look, h.Obj{"op": "back-runs"})
		} else {
			look = append(look, h.Obj{"op": "size"}, h.Obj{"op": "dup", "j": 2})
		}
		if name == "queue" {
			look = append(look, h.Obj{"op": "peekf"}, h.Obj{"op": "peekall"})
		}
	}
	for x := 0; x < 300; x++ {
		o := h.Obj{"k": next + g.Intn(40000) - 20000}
		if g.Intn(3) == 0 {
			o["k"] = next
		}
		for f, v := range look[x%len(look)] {
			o[f] = v
		}
		if o.Has("j") && has("rope prope stack queue", name) {
			delete(o, "k")
		}
		do(o)
	}
	if g.k.t == "lru" { // lookups reorder the entries
		do(h.Obj{"op": "getn", "k": next, "n": few})
	}
	if first != "multimap" {
		do(h.Obj{"op": "new", "i": 2, "t": g.k.t, "c": c}) // what was derived is dropped
	}
}

// churn adds about w entries, of which few are there before or after.
func (g *gen) churn(one, w, c int, size, next *int, do func(h.Obj)) {
	name := g.k.name
	switch {
	case name == "cache":
		do(h.Obj{"op": "putn", "k": *next, "n": w, "v": *next})
		switch g.Intn(4) {
		case 0:
			do(h.Obj{"op": "rmn", "k": *next, "n": w / 2, "how": g.how()})
		case 1:
			do(h.Obj{"op": "getn", "k": *next, "n": w / 2})
		case 2:
			do(h.Obj{"op": "resize", "n": c / 2})
			do(h.Obj{"op": "resize", "n": c})
		}
		*next += w
	case name == "heap":
		do(h.Obj{"op": "fill", "k": *next, "v": *next, "n": w, "how": g.how()})
		do(h.Obj{"op": "popmin", "n": *size + w - w/4*min(one, 1)})
		*size = w / 4 * min(one, 1)
		*next += w
	case g.k.t == "map":
		do(h.Obj{"op": "fill", "k": *next, "v": *next, "n": w, "how": g.how()})
		first := strings.Fields(name)[0]
		if has("hashmap hashset set bimap", first) && g.Intn(4) == 0 {
			do(h.Obj{"op": "dup", "j": 1})
		}
		if first == "set" && g.Intn(3) == 0 {
			do(h.Obj{"op": []string{"union", "inter"}[g.Intn(2)], "a": 1, "j": 1})
		}
		switch look := g.Intn(4); {
		case look == 0 && first != "multimap":
			do(h.Obj{"op": "hits", "k": *next + g.Pick(-w, 0, w), "n": w})
		case look == 1 && name == "interval":
			do(h.Obj{"op": "over", "k": *next, "n": w})
		case look == 1 && name == "trie":
			do(h.Obj{"op": "prefix", "k": *next, "n": 1})
		case look == 2 && name == "trie":
			do(h.Obj{"op": "longest", "k": *next})
		case look == 1:
			do(h.Obj{"op": "size"})
		}
		switch {
		case one == 0: // some stay for one more round
			do(h.Obj{"op": "drain", "k": *next - w, "n": w + w/2, "how": g.how()})
		case one == 1:
			do(h.Obj{"op": "drain", "k": *next, "n": w, "how": g.how()})
		case !has("avl interval trie bimap multimap", first) && g.Intn(2) == 0:
			do(h.Obj{"op": "clear"})
		default:
			do(h.Obj{"op": "drain", "k": *next - w, "n": 2 * w, "how": g.how()})
		}
		*next += w
	case name == "rope" || name == "prope":
		if *size == 0 {
			do(h.Obj{"op": "ins", "pos": 0, "n": 2 * w, "v": 0})
			*size = 2 * w
		}
		pos, n := g.Intn(*size), g.Pick(1, 2, w, 1500)
		if one == 2 && g.Intn(3) == 0 { // nothing is left
			do(h.Obj{"op": "del", "pos": 0, "n": *size})
			*size, pos, n = 0, 0, g.Pick(w, 1500)
		}
		do(h.Obj{"op": "ins", "pos": pos, "n": n, "v": 1})
		*size += n
		pos = g.Intn(*size - n + 1)
		n = max(0, min(n, *size-w))
		if g.Intn(4) == 0 && name == "prope" {
			do(h.Obj{"op": "cutr", "pos": n})
		} else {
			do(h.Obj{"op": "del", "pos": pos, "n": n})
		}
		*size -= n
		switch g.Intn(8) {
		case 0:
			do(h.Obj{"op": "slice", "pos": 0, "n": *size})
		case 1:
			do(h.Obj{"op": "at", "pos": *size / 2})
		case 2:
			do(h.Obj{"op": "runs"})
		}
	default:
		do(h.Obj{"op": "back", "n": w, "v": 1})
		if has("queue stack", name) && g.Intn(4) == 0 {
			do(h.Obj{"op": "dup", "j": 1})
		}
		switch name {
		case "queue":
			do(h.Obj{"op": "popf", "n": *size + w - w/4*min(one, 1)})
		case "stack":
			do(h.Obj{"op": "popb", "n": *size + w - w/4*min(one, 1)})
		case "list":
			do(h.Obj{"op": "del", "pos": g.Pick(0, min(*size, w/4)), "n": *size + w - w/4})
			*size = w / 4
			return
		case "ulist":
			do(h.Obj{"op": "delit", "pos": g.Pick(0, min(*size, w/4)), "n": *size + w - w/4})
			*size = w / 4
			return
		}
		*size = w / 4 * min(one, 1)
	}
}

// settle leaves the container as it was at first, empty.
func (g *gen) settle(size, next, w, c int, do func(h.Obj)) {
	switch name := g.k.name; {
	case name == "heap":
		do(h.Obj{"op": "popmin", "n": size})
	case name == "queue":
		do(h.Obj{"op": "popf", "n": size})
	case name == "stack":
		do(h.Obj{"op": "popb", "n": size})
	case g.k.t == "lru":
		do(h.Obj{"op": "resize", "n": 0})
		do(h.Obj{"op": "resize", "n": c})
	case g.k.t == "map":
		do(h.Obj{"op": "drain", "k": next - 2*w, "n": 2 * w, "how": g.how()})
	case name == "ulist" && size > 0:
		do(h.Obj{"op": "delit", "pos": 0, "n": size})
	case size > 0:
		do(h.Obj{"op": "del", "pos": 0, "n": size})
	}
}
