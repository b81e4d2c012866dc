------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* DESIGN of package interval: an AVL tree of intervals keyed by low end   *)
(* whose nodes cache their height and the greatest high end of their       *)
(* subtree; overlap queries prune by it.                                   *)
(***************************************************************************)
EXTENDS Common

Nil == [h |-> 0]
Node(k, hi, v) == [k |-> k, hi |-> hi, v |-> v, h |-> 1, mx |-> hi, l |-> Nil, r |-> Nil]

MaxOf(t) ==
  LET a == IF t.r = Nil THEN t.hi ELSE MaxI(t.hi, t.r.mx)
  IN  IF t.l = Nil THEN a ELSE MaxI(a, t.l.mx)
Fix(t) == [t EXCEPT !.h = 1 + MaxI(t.l.h, t.r.h), !.mx = MaxOf(t)]

RotL(t) == LET n == t.r IN Fix([n EXCEPT !.l = Fix([t EXCEPT !.r = n.l])])
RotR(t) == LET n == t.l IN Fix([n EXCEPT !.r = Fix([t EXCEPT !.l = n.r])])

Rebalance(t) ==
  IF t = Nil THEN Nil
  ELSE LET n == Fix(t)
           b == n.l.h - n.r.h
       IN  CASE b <= -2 -> RotL(IF n.r.l.h > n.r.r.h THEN [n EXCEPT !.r = RotR(n.r)] ELSE n)
             [] b >= 2  -> RotR(IF n.l.r.h > n.l.l.h THEN [n EXCEPT !.l = RotL(n.l)] ELSE n)
             [] OTHER   -> n

RECURSIVE Ins(_, _, _, _, _), Rem(_, _), Smallest(_), Search(_, _), Walk(_), Ov(_, _, _), Shape(_)

\* <<new tree, conflicting entry or <<0>> >>
Ins(t, lo, hi, v, overwrite) ==
  IF t = Nil THEN <<Node(lo, hi, v), <<0>>>>
  ELSE CASE lo < t.k -> LET x == Ins(t.l, lo, hi, v, overwrite) IN <<Rebalance([t EXCEPT !.l = x[1]]), x[2]>>
         [] lo > t.k -> LET x == Ins(t.r, lo, hi, v, overwrite) IN <<Rebalance([t EXCEPT !.r = x[1]]), x[2]>>
         [] OTHER    -> LET old == <<1, t.k, t.hi, t.v>>
                        IN  IF overwrite THEN <<Rebalance([t EXCEPT !.hi = hi, !.v = v]), old>> ELSE <<t, old>>

Smallest(t) == IF t.l = Nil THEN t ELSE Smallest(t.l)

Rem(t, lo) ==
  IF t = Nil THEN <<Nil, <<0>>>>
  ELSE CASE lo < t.k -> LET x == Rem(t.l, lo) IN <<Rebalance([t EXCEPT !.l = x[1]]), x[2]>>
         [] lo > t.k -> LET x == Rem(t.r, lo) IN <<Rebalance([t EXCEPT !.r = x[1]]), x[2]>>
         [] OTHER    ->
              LET n == CASE t.l = Nil -> t.r
                         [] t.r = Nil -> t.l
                         [] OTHER -> LET m == Smallest(t.r)
                                     IN  [t EXCEPT !.k = m.k, !.hi = m.hi, !.v = m.v, !.r = Rem(t.r, m.k)[1]]
              IN  <<Rebalance(n), <<1, t.k, t.hi, t.v>>>>

Search(t, lo) ==
  IF t = Nil THEN <<0>>
  ELSE IF lo < t.k THEN Search(t.l, lo) ELSE IF lo > t.k THEN Search(t.r, lo) ELSE <<1, t.k, t.hi, t.v>>

Ov(t, lo, hi) ==
  IF t = Nil \/ lo >= t.mx THEN <<>>
  ELSE Ov(t.l, lo, hi)
       \o (IF t.k < hi /\ t.hi > lo THEN <<t.k>> ELSE <<>>)
       \o (IF hi <= t.k THEN <<>> ELSE Ov(t.r, lo, hi))

Walk(t) == IF t = Nil THEN <<>> ELSE Walk(t.l) \o <<<<t.k, t.hi, t.v>>>> \o Walk(t.r)

Shape(t) == IF t = Nil THEN <<>> ELSE <<t.k, t.hi, t.h, t.mx, Shape(t.l), Shape(t.r)>>

RECURSIVE WellFormed(_)
WellFormed(t) ==
  t = Nil \/ /\ t.h = 1 + MaxI(t.l.h, t.r.h)
             /\ t.l.h - t.r.h \in -1..1
             /\ t.mx = MaxOf(t)
             /\ WellFormed(t.l) /\ WellFormed(t.r)
=============================================================================
