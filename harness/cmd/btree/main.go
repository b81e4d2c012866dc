// Conformance driver for package btree (C03).
package main

import (
	"verif/harness/h"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/btree"
)

func mk[K any](less func(a, b K) bool) h.OMap[K] { return btree.New[K, int](g.LessFn[K](less)) }

// mkAny: keys and values of interface type.
func mkAny(less func(a, b any) bool) h.OMap[any] {
	return h.AnyMap[any]{M: btree.New[any, any](g.LessFn[any](less)), Null: 102}
}

func main() {
	h.Main(&h.Driver{
		Variants: 6,
		New: func(v int) h.Sys {
			// Variants from 10 on are for recording: no grouping.
			switch v {
			case 1:
				return h.NewOMapSys(h.DescKeys(), 0, mk[int])
			case 2:
				return h.NewOMapSys(h.TaggedKeys(), 16, mk[h.Tagged])
			case 3:
				return h.NewOMapSys(h.StrKeys(), 31, mk[string])
			case 4:
				return h.NewOMapSys(h.IntKeys(), 64, mk[int])
			case 5:
				return h.NewOMapSys(h.AnyKeys(17), 16, mkAny)
			case 13:
				return h.NewOMapSys(h.AnyKeys(17), 0, mkAny)
			case 10:
				return h.NewOMapSys(h.IntKeys(), 0, mk[int])
			case 11:
				return h.NewOMapSys(h.DescKeys(), 0, mk[int])
			case 12:
				return h.NewOMapSys(h.TaggedKeys(), 0, mk[h.Tagged])
			}
			return h.NewOMapSys(h.IntKeys(), 16, mk[int])
		},
		Record: func(r *h.Rec) {
			r.Base = 10
			h.RecordOMap(r, 4, h.PlainNew)
			h.RecordBig(r, 4, 2*r.Scale, 3000, h.PlainNew)
			h.RecordBig(r, 4, 1*r.Scale, 12000, h.PlainNew)
		},
	})
}
