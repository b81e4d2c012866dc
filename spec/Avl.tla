-------------------------------- MODULE Avl --------------------------------
(***************************************************************************)
(* DESIGN of package avl: the tree of nodes with cached heights, insertion,*)
(* deletion by in-order successor, and the rotations, as the code does     *)
(* them.  (The interval tree uses the same balancing, see Interval.)       *)
(***************************************************************************)
EXTENDS Common

Nil == [h |-> 0]
Node(k, v, h, l, r) == [k |-> k, v |-> v, h |-> h, l |-> l, r |-> r]

Fix(t) == [t EXCEPT !.h = 1 + MaxI(t.l.h, t.r.h)]

RotL(t) == LET n == t.r IN Fix([n EXCEPT !.l = Fix([t EXCEPT !.r = n.l])])
RotR(t) == LET n == t.l IN Fix([n EXCEPT !.r = Fix([t EXCEPT !.l = n.r])])

Rebalance(t) ==
  IF t = Nil THEN Nil
  ELSE LET n == Fix(t)
           b == n.l.h - n.r.h
       IN  CASE b <= -2 -> RotL(IF n.r.l.h > n.r.r.h THEN [n EXCEPT !.r = RotR(n.r)] ELSE n)
             [] b >= 2  -> RotR(IF n.l.r.h > n.l.l.h THEN [n EXCEPT !.l = RotL(n.l)] ELSE n)
             [] OTHER   -> n

RECURSIVE Add(_, _, _), Rem(_, _), Smallest(_), Search(_, _), Walk(_), Shape(_)

Add(t, k, v) ==
  IF t = Nil THEN Node(k, v, 1, Nil, Nil)
  ELSE Rebalance(CASE k < t.k -> [t EXCEPT !.l = Add(t.l, k, v)]
                   [] k > t.k -> [t EXCEPT !.r = Add(t.r, k, v)]
                   [] OTHER   -> [t EXCEPT !.v = v])

Smallest(t) == IF t.l = Nil THEN t ELSE Smallest(t.l)

Rem(t, k) ==
  IF t = Nil THEN Nil
  ELSE CASE k < t.k -> Rebalance([t EXCEPT !.l = Rem(t.l, k)])
         [] k > t.k -> Rebalance([t EXCEPT !.r = Rem(t.r, k)])
         [] OTHER   ->
              CASE t.l # Nil /\ t.r # Nil ->
                     LET m == Smallest(t.r)
                     IN  Rebalance([t EXCEPT !.k = m.k, !.v = m.v, !.r = Rem(t.r, m.k)])
                [] t.l # Nil -> Rebalance(t.l)
                [] OTHER     -> Rebalance(t.r)

Search(t, k) ==
  IF t = Nil THEN <<0, 0>>
  ELSE IF k < t.k THEN Search(t.l, k) ELSE IF k > t.k THEN Search(t.r, k) ELSE <<t.v, 1>>

Walk(t) == IF t = Nil THEN <<>> ELSE Walk(t.l) \o <<<<t.k, t.v>>>> \o Walk(t.r)

\* The tree without its values: what the future of the design depends on.
Shape(t) == IF t = Nil THEN <<>> ELSE <<t.k, t.h, Shape(t.l), Shape(t.r)>>

RECURSIVE WellFormed(_)
WellFormed(t) ==
  t = Nil \/ /\ t.h = 1 + MaxI(t.l.h, t.r.h)
             /\ t.l.h - t.r.h \in -1..1
             /\ WellFormed(t.l) /\ WellFormed(t.r)
=============================================================================
