------------------------------ MODULE Multimap ------------------------------
(***************************************************************************)
(* DESIGN of package multimap: a container of keys (a Go map or an AVL     *)
(* tree, whose own design is in Avl.tla), each with a values container,    *)
(* and a separate counter of all entries.  A slice of values is a          *)
(* sequence, from which one is removed by moving the last one into its     *)
(* place; a set of values is an AVL tree, here its sorted sequence.        *)
(*   d: [kind, keys: key -> sequence of values, size]                      *)
(***************************************************************************)
EXTENDS Common

IsSlice(d) == d.kind \in {"mapslice", "avlslice"}
DNew(kind) == [kind |-> kind, keys |-> EmptyFn, size |-> 0]
IndexOf(q, v) == CHOOSE x \in 1..Len(q) : q[x] = v /\ \A y \in 1..(x-1) : q[y] # v

DPut(d, k, v) ==
  LET q  == IF k \in DOMAIN d.keys THEN d.keys[k] ELSE <<>>
      q2 == IF IsSlice(d) THEN Append(q, v) ELSE Sorted(RangeOf(q) \cup {v})
  IN  [d EXCEPT !.keys = (k :> q2) @@ @, !.size = @ + (Len(q2) - Len(q))]

DRemove(d, k, v) ==
  IF k \notin DOMAIN d.keys THEN d
  ELSE LET q  == d.keys[k]
           x  == IndexOf(q, v)
           q2 == IF v \notin RangeOf(q) THEN q
                 ELSE IF IsSlice(d) THEN SubSeq([q EXCEPT ![x] = q[Len(q)]], 1, Len(q) - 1)
                 ELSE SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q))
           ks == IF q2 = <<>> THEN Without(d.keys, k) ELSE (k :> q2) @@ d.keys
       IN  [d EXCEPT !.keys = ks, !.size = @ - (Len(q) - Len(q2))]

DRemoveAll(d, k) ==
  IF k \notin DOMAIN d.keys THEN d ELSE [d EXCEPT !.keys = Without(@, k), !.size = @ - Len(d.keys[k])]
DClear(d) == DNew(d.kind)
=============================================================================
