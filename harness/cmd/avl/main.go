// Conformance driver for package avl (C01, C02).
package main

import (
	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
)

func mk[K any](less func(a, b K) bool) h.OMap[K] { return avl.New[K, int](g.LessFn[K](less)) }

// mkAny: values of interface type.
func mkAny[K any](less func(a, b K) bool) h.OMap[K] {
	return h.AnyMap[K]{M: avl.New[K, any](g.LessFn[K](less)), Null: 102}
}

func main() {
	h.Main(&h.Driver{
		Variants: 6,
		New: func(v int) h.Sys {
			switch v {
			case 1:
				return h.NewOMapSys(h.DescKeys(), 0, mk[int])
			case 2:
				return h.NewOMapSys(h.TaggedKeys(), 0, mk[h.Tagged])
			case 3:
				return h.NewOMapSys(h.StrKeys(), 0, mk[string])
			}
			if v == 4 {
				return h.NewOMapSys(h.IntKeys(), 0, mkAny[int])
			}
			if v == 5 {
				return h.NewOMapSys(h.AnyKeys(2), 0, mkAny[any])
			}
			return h.NewOMapSys(h.IntKeys(), 0, mk[int])
		},
		Record: func(r *h.Rec) {
			h.RecordOMap(r, 6, h.PlainNew)
			h.RecordBig(r, 6, 1+r.Scale, 12000, h.PlainNew)
		},
	})
}
