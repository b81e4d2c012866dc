package main

import (
	"sync"

	"verif/harness/h"
)

// par runs one program per goroutine, all started together. Each goroutine has
// its own table of the instances, so that the harness shares nothing but the
// instances themselves.
func (s *sys) par(o h.Obj) any {
	ws := o["ws"].([]any)
	res := make([]any, len(ws))
	mine := make([]*sys, len(ws))
	bad := make([]any, len(ws))
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := range ws {
		w := w
		m := &sys{k: s.k, inst: map[int]any{}, extra: s.extra}
		for i, x := range s.inst {
			m.inst[i] = x
		}
		mine[w] = m
		prog := ws[w].([]any)
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := []any{}
			res[w] = out
			defer func() {
				if e := recover(); e != nil {
					if b, ok := e.(h.Bad); ok {
						bad[w] = b
					}
					res[w] = append(out, h.L(-99)) // a panic
				}
			}()
			<-start
			for _, q := range prog {
				r := m.Do(toObj(q))
				if r == nil {
					r = []any{}
				}
				out = append(out, r)
			}
			res[w] = out
		}()
	}
	close(start)
	wg.Wait()
	for w := range ws {
		if bad[w] != nil {
			panic(bad[w])
		}
		for _, q := range ws[w].([]any) { // instances may have been remade
			o := toObj(q)
			i := o.I("i")
			if o.Has("j") {
				i = o.I("j")
			}
			s.inst[i] = mine[w].inst[i]
		}
	}
	return res
}

func toObj(q any) h.Obj {
	if o, ok := q.(h.Obj); ok {
		return o
	}
	return h.Obj(q.(map[string]any))
}
