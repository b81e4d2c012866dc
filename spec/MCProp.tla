------------------------------- MODULE MCProp -------------------------------
(***************************************************************************)
(* Every shared structure below at most NV versions of length at most      *)
(* MaxLen that the design of prope reaches.  A new version takes a new     *)
(* number, or replaces (that is, forgets) an existing one.                 *)
(***************************************************************************)
EXTENDS Prope, PropeModel, Json
CONSTANTS NV, MaxInit, MaxLen, MaxLeaves, InsLens, Slices, Window
VARIABLES d, s, ok, path

Do(o, v2, m2) ==
  /\ d' = [v |-> v2, m |-> m2]
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Cfg == [op |-> "cfg", sl |-> SL, jl |-> JL, rr |-> RR, p |-> 0, r |-> <<>>]
Vals(n, base) == [x \in 1..n |-> base + x]
Init == \E n \in 0..MaxInit :
          LET o == [op |-> "new", i |-> 1, vals |-> Vals(n, 0), p |-> 0, r |-> <<>>]
              x == PFresh(P0, o.vals)
          IN  /\ d = [v |-> (1 :> x[1]), m |-> x[2]]
              /\ s = Post(S0, o)
              /\ ok = TRUE
              /\ path = <<Cfg, o>>
              /\ Evaluated(<<d, s, path>>)

I == DOMAIN s
Base == 10 * Len(path)
F(o) == [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN <<>> ELSE o[f]]
Targets == {j \in 1..NV : j <= Cardinality(I) + 1}
LeavesOf(i) == NLeavesOf(d.m, d.v[i])

DoIns == \E i \in I, j \in Targets : \E n \in 0..Len(s[i]), c \in InsLens :
  /\ Len(s[i]) + c <= MaxLen /\ LeavesOf(i) < MaxLeaves
  /\ LET v == Vals(c, Base)
         x == PIns(d.m, d.v[i], n, v)
     IN  Do(F([op |-> "ins", i |-> i, j |-> j, n |-> n, vals |-> v]), (j :> x[1]) @@ d.v, x[2])
DoRem == \E i \in I, j \in Targets : \E a, b \in 0..Len(s[i]) :
  /\ a <= b
  /\ LET x == PRem(d.m, d.v[i], a, b) IN
     Do(F([op |-> "rm", i |-> i, j |-> j, a |-> a, b |-> b]), (j :> x[1]) @@ d.v, x[2])
DoSplit == \E i \in I, j \in Targets : \E k \in Targets \cup {j + 1} : \E n \in 0..Len(s[i]) :
  /\ j # k /\ k <= NV /\ LeavesOf(i) < MaxLeaves
  /\ \A x \in 1..MaxI(j, k) : x \in I \cup {j, k}
  /\ LET x == PSplit(d.m, d.v[i], n) IN
     Do(F([op |-> "split", i |-> i, j |-> j, k |-> k, n |-> n]), (j :> x[1]) @@ (k :> x[2]) @@ d.v, x[3])
Orders == UNION {[1..m -> I] : m \in 0..2}   \* also a version with itself
DoJoin == \E q \in Orders, j \in Targets :
  /\ SumF([x \in DOMAIN q |-> Len(s[q[x]])], DOMAIN q) <= MaxLen
  /\ SumF([x \in DOMAIN q |-> LeavesOf(q[x])], DOMAIN q) <= MaxLeaves
  /\ LET x == PJoin(d.m, [y \in DOMAIN q |-> d.v[q[y]]]) IN
     Do(F([op |-> "join", os |-> q, j |-> j]), (j :> x[1]) @@ d.v, x[2])
DoRebuild == \E i \in I : Do(F([op |-> "rebuild", i |-> i]), d.v, PRebuild(d.m, d.v[i]))
DoRebalance == \E i \in I : Do(F([op |-> "rebalance", i |-> i]), d.v, PRebalance(d.m, d.v[i]))

Next == DoIns \/ DoRem \/ DoSplit \/ DoJoin \/ DoRebuild \/ DoRebalance

Recent == LET n == MaxI(2, Len(path) - Window) IN [x \in 1..(Len(path) - n) |-> <<path[n + x].op>>]
View == <<Canon(d.m, d.v), ok, Recent>>

Refines ==
  /\ ok
  /\ \A i \in I : PVal(d.m, d.v[i]) = s[i] /\ d.m.node[d.v[i]].len = Len(s[i]) /\ PLens(d.m, d.v[i])

\* No step changes what an existing version (that is not replaced) yields.
Immutable == [][\A i \in DOMAIN d.v : (i \in DOMAIN d'.v /\ d'.v[i] = d.v[i]) => PVal(d'.m, d'.v[i]) = PVal(d.m, d.v[i])]_<<d>>

RECURSIVE ObsAll(_, _)
ObsAll(t, J) == IF J = {} THEN <<>> ELSE LET i == CHOOSE i \in J : TRUE IN ObsVersion(t, i, Slices) \o ObsAll(t, J \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(s', DOMAIN s')))
=============================================================================
