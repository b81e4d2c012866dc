package h

import "math/rand"

// Nest checks reads made by the callback of an iteration: they must see all
// that the iteration sees.
type Nest struct {
	at    int
	count int // what nested iterations counted
	bad   bool
}

// Now reports whether to read at this call of the callback.
func (n *Nest) Now() bool {
	n.at++
	return n.at <= 2 || n.at&(n.at-1) == 0
}

// At is the number of calls so far.
func (n *Nest) At() int { return n.at }

// Check notes the outcome of a read.
func (n *Nest) Check(ok bool) { n.bad = n.bad || !ok }

// Count notes how many items a nested iteration saw.
func (n *Nest) Count(c int) {
	n.bad = n.bad || n.count != 0 && n.count != c
	n.count = c
}

// Result marks the result r of the iteration if something was wrong.
func (n *Nest) Result(r []any) []any {
	if n.bad || n.count != n.at && n.at > 0 {
		return append(r, L(-7777, n.count, n.at))
	}
	return r
}

// Times says how often a step is to be done and undone before it is done.
func Times(o Obj) int {
	if o.Has("x") {
		return o.I("x")
	}
	return 0
}

// Churned has a step repeated many times now and then: done and undone
// hundreds or, seldom, tens of thousands of times, which comes to the same.
func (r *Rec) Churned(o Obj) Obj {
	switch x := r.Intn(4000); {
	case x == 0 && r.Churn == 0:
		o["x"] = 66000
	case x < 15 && r.Churn < 2:
		o["x"] = 290
	case x < 50 && r.Churn < 3:
		o["x"] = r.Pick(1, 2, 3, 7, 15, 16, 31, 40, 70)
	}
	return o
}

type abandoned struct{}

// Iterated runs an iteration, which calls f for every item, and sometimes
// abandons it: then the callback panics at one of the first items. Either way
// an iteration only reads.
func Iterated(r *rand.Rand, each func(f func())) {
	k := r.Intn(9)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abandoned); !ok {
				panic(e)
			}
		}
	}()
	each(func() {
		if k--; k == 0 {
			panic(abandoned{})
		}
	})
}
