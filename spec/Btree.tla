------------------------------- MODULE Btree -------------------------------
(***************************************************************************)
(* DESIGN of package btree with M entries per node (64 in the code):       *)
(* insertion with splits on overflow, removal by tombstone, and a separate *)
(* element counter.  A node is a sequence; leaf entries are [k, v, ok],    *)
(* inner entries [k, n].  Removal never merges nodes.                      *)
(***************************************************************************)
EXTENDS Common
CONSTANT M

EmptyTree == [root |-> <<>>, h |-> 0, n |-> 0]

InsertAt(q, j, e) == SubSeq(q, 1, j - 1) \o <<e>> \o SubSeq(q, j, Len(q))
Halve(q) == IF Len(q) < M THEN <<q, <<>>>> ELSE <<SubSeq(q, 1, M \div 2), SubSeq(q, M \div 2 + 1, Len(q))>>

RECURSIVE Find(_, _, _), Ins(_, _, _, _, _), Walk(_, _), Shape(_, _)

\* the child an inner node descends into
Child(x, k) == CHOOSE j \in 1..Len(x) : (j = Len(x) \/ k < x[j+1].k) /\ \A y \in 2..j : k >= x[y].k

Find(x, k, h) ==
  IF h = 0 THEN LET S == {j \in 1..Len(x) : x[j].k = k}
                IN  IF S = {} THEN <<0, 0>> ELSE LET e == x[CHOOSE j \in S : TRUE] IN IF e.ok THEN <<e.v, 1>> ELSE <<0, 0>>
  ELSE Find(x[Child(x, k)].n, k, h - 1)

\* <<node, new right sibling or <<>> >>
Ins(x, k, v, h, valid) ==
  IF h = 0 THEN
    IF \E j \in 1..Len(x) : x[j].k = k
    THEN LET j == CHOOSE j \in 1..Len(x) : x[j].k = k IN <<[x EXCEPT ![j] = [k |-> k, v |-> v, ok |-> valid]], <<>>>>
    ELSE LET j == Cardinality({y \in 1..Len(x) : x[y].k < k}) + 1 IN Halve(InsertAt(x, j, [k |-> k, v |-> v, ok |-> valid]))
  ELSE
    LET j == Child(x, k)
        u == Ins(x[j].n, k, v, h - 1, valid)
        y == [x EXCEPT ![j].n = u[1]]
    IN  IF u[2] = <<>> THEN <<y, <<>>>> ELSE Halve(InsertAt(y, j + 1, [k |-> u[2][1].k, n |-> u[2]]))

Grow(t, u) ==
  IF u[2] = <<>> THEN [t EXCEPT !.root = u[1]]
  ELSE [t EXCEPT !.root = <<[k |-> u[1][1].k, n |-> u[1]], [k |-> u[2][1].k, n |-> u[2]]>>, !.h = @ + 1]

Put(t, k, v) ==
  LET g == Grow(t, Ins(t.root, k, v, t.h, TRUE))
  IN  [g EXCEPT !.n = @ + (1 - Find(t.root, k, t.h)[2])]

Rem(t, k) ==
  IF Find(t.root, k, t.h)[2] = 0 THEN t
  ELSE [t EXCEPT !.root = Ins(t.root, k, 0, t.h, FALSE)[1], !.n = @ - 1]

Walk(x, h) ==
  IF x = <<>> THEN <<>>
  ELSE (IF h = 0 THEN IF x[1].ok THEN <<<<x[1].k, x[1].v>>>> ELSE <<>> ELSE Walk(x[1].n, h - 1)) \o Walk(Tail(x), h)

Shape(x, h) == [j \in 1..Len(x) |-> IF h = 0 THEN <<x[j].k, x[j].ok>> ELSE <<x[j].k, Shape(x[j].n, h - 1)>>]

\* Every node but the root holds at least M/2 and fewer than M entries, and
\* keys are sorted and separated by the inner keys (the first key of an inner
\* node is never looked at and means nothing).
RECURSIVE WF(_, _, _, _, _)
WF(x, h, lo, hi, isRoot) ==
  /\ Len(x) < M
  /\ isRoot \/ Len(x) >= M \div 2
  /\ \A j \in (IF h = 0 THEN 1 ELSE 2)..(Len(x) - 1) : x[j].k < x[j+1].k
  /\ IF h = 0 THEN \A j \in 1..Len(x) : lo <= x[j].k /\ x[j].k < hi
     ELSE \A j \in 1..Len(x) :
            WF(x[j].n, h - 1, IF j = 1 THEN lo ELSE x[j].k, IF j = Len(x) THEN hi ELSE x[j+1].k, FALSE)
=============================================================================
