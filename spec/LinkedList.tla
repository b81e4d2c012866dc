----------------------------- MODULE LinkedList -----------------------------
(***************************************************************************)
(* DESIGN of list/list.go: nodes with Prev and Next pointers, lists with   *)
(* Front and Back.  0 is nil.  m.next, m.prev: pointers per node, stale    *)
(* after a removal; m.front, m.back: per list.                             *)
(***************************************************************************)
EXTENDS Common

Mem0 == [next |-> EmptyFn, prev |-> EmptyFn, front |-> EmptyFn, back |-> EmptyFn]
NewList(m, i) == [m EXCEPT !.front = (i :> 0) @@ @, !.back = (i :> 0) @@ @]

SetNext(m, n, x) == [m EXCEPT !.next = (n :> x) @@ @]
SetPrev(m, n, x) == [m EXCEPT !.prev = (n :> x) @@ @]
SetFront(m, i, x) == [m EXCEPT !.front[i] = x]
SetBack(m, i, x)  == [m EXCEPT !.back[i] = x]

PushBackNode(m, i, n) ==
  LET m1 == SetPrev(SetNext(m, n, 0), n, m.back[i])
      m2 == IF m1.back[i] # 0 THEN SetNext(m1, m1.back[i], n) ELSE SetFront(m1, i, n)
  IN  SetBack(m2, i, n)

PushFrontNode(m, i, n) ==
  LET m1 == SetPrev(SetNext(m, n, m.front[i]), n, 0)
      m2 == IF m1.front[i] # 0 THEN SetPrev(m1, m1.front[i], n) ELSE SetBack(m1, i, n)
  IN  SetFront(m2, i, n)

InsertAfter(m, i, n, x) ==
  LET m1 == SetPrev(SetNext(m, x, m.next[n]), x, n)
      m2 == IF m1.next[n] # 0 THEN SetPrev(m1, m1.next[n], x) ELSE SetBack(m1, i, x)
  IN  SetNext(m2, n, x)

InsertBefore(m, i, n, x) ==
  LET m1 == SetPrev(SetNext(m, x, n), x, m.prev[n])
      m2 == IF m1.prev[n] # 0 THEN SetNext(m1, m1.prev[n], x) ELSE SetFront(m1, i, x)
  IN  SetPrev(m2, n, x)

Unlink(m, i, n) ==
  LET m1 == IF m.next[n] # 0 THEN SetPrev(m, m.next[n], m.prev[n]) ELSE SetBack(m, i, m.prev[n])
  IN  IF m1.prev[n] # 0 THEN SetNext(m1, m1.prev[n], m1.next[n]) ELSE SetFront(m1, i, m1.next[n])

RECURSIVE Walk(_, _, _)
Walk(nx, n, fuel) == IF n = 0 \/ fuel = 0 THEN <<>> ELSE <<n>> \o Walk(nx, nx[n], fuel - 1)
Fwd(m, i) == Walk(m.next, m.front[i], 1 + Cardinality(DOMAIN m.next))
Bwd(m, i) == Walk(m.prev, m.back[i], 1 + Cardinality(DOMAIN m.next))
=============================================================================
