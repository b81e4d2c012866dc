----------------------------- MODULE HeapModel ------------------------------
(***************************************************************************)
(* CONTRACT of package heap: an instance is a bag of elements <<rank,      *)
(* tag>>, ordered by rank only.  Which of several least elements is        *)
(* returned is open: the bag after a pop depends on the result.            *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
BAdd(b, e) == IF e \in DOMAIN b THEN [b EXCEPT ![e] = @ + 1] ELSE (e :> 1) @@ b
BDel(b, e) == IF b[e] > 1 THEN [b EXCEPT ![e] = @ - 1] ELSE Without(b, e)
BagOf(q) == LET S == RangeOf(q) IN [e \in S |-> Cardinality({x \in 1..Len(q) : q[x] = e})]
BSize(b) == SumF(b, DOMAIN b)
Least(b) == CHOOSE m \in {e[1] : e \in DOMAIN b} : \A e \in DOMAIN b : m <= e[1]

\* Results of pop and peek: <<rank, tag, 1>>, or <<0, 0, 0>> for an empty heap.
Allowed(b, r) ==
  IF b = EmptyFn THEN r = <<0, 0, 0>>
  ELSE Len(r) = 3 /\ r[3] = 1 /\ <<r[1], r[2]>> \in DOMAIN b /\ \A e \in DOMAIN b : r[1] <= e[1]

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op \in {"new", "of"} -> (o.i :> BagOf(o.vals)) @@ s
    \* many at once, all different and new: ranks rs, tags t, t+1, ...
    [] o.op = "pushn" -> (o.i :> ([e \in {<<o.rs[x], o.t + x - 1>> : x \in 1..Len(o.rs)} |-> 1] @@ s[o.i])) @@ s
    [] o.op = "push" -> (o.i :> BAdd(s[o.i], o.v)) @@ s
    [] o.op = "pop"  -> IF Allowed(s[o.i], o.r) /\ o.r[3] = 1 THEN (o.i :> BDel(s[o.i], <<o.r[1], o.r[2]>>)) @@ s ELSE s
    [] OTHER -> s

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op \in {"pop", "peek"} -> Allowed(s[o.i], o.r)
       [] o.op = "size" -> o.r = <<BSize(s[o.i])>>
       [] OTHER -> TRUE
=============================================================================
