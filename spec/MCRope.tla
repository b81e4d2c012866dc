------------------------------- MODULE MCRope -------------------------------
(***************************************************************************)
(* Every shape of ropes of total length at most MaxLen with at most        *)
(* MaxLeaves leaves; states are compared by shape.  Ops: "edit" for        *)
(* insertions and removals only, "all" also for splitting, joining and     *)
(* rebuilding, "both" without insertions of the rope's own slices.         *)
(***************************************************************************)
EXTENDS Rope, RopeModel, Json
CONSTANTS NI, MaxInit, MaxLen, MaxLeaves, InsLens, Ops, Slices, Window
VARIABLES d, s, ok, path

Do(o, t2, m2) ==
  /\ d' = [t |-> t2, mem |-> m2]
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Cfg == [op |-> "cfg", sl |-> SL, jl |-> JL, rr |-> RR, p |-> 0, r |-> <<>>]
Vals(n, base) == [x \in 1..n |-> base + x]
Init == \E n \in 0..MaxInit :
          LET o == [op |-> "new", i |-> 1, vals |-> Vals(n, 0), p |-> 0, r |-> <<>>]
              x == Fresh(EmptyFn, o.vals)
          IN  /\ d = [t |-> (1 :> x[1]), mem |-> x[2]]
              /\ s = Post(S0, o)
              /\ ok = TRUE
              /\ path = <<Cfg, o>>
              /\ Evaluated(<<d, s, path>>)

I == DOMAIN s
Total == SumF([i \in I |-> Len(s[i])], I)
NLeaves == SumF([i \in I |-> Len(Leaves(d.t[i]))], I)
Base == 10 * Len(path)
F(o) == [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN <<>> ELSE o[f]]

DoIns == \E i \in I : \E n \in 0..Len(s[i]), c \in InsLens :
  /\ Total + c <= MaxLen /\ NLeaves < MaxLeaves
  /\ LET v == Vals(c, Base)
         x == RIns(d.mem, d.t[i], n, v)
     IN  Do(F([op |-> "ins", i |-> i, n |-> n, vals |-> v]), (i :> x[1]) @@ d.t, x[2])
DoInsSelf == \E i \in I : \E n \in 0..Len(s[i]), a, b \in 0..Len(s[i]) :
  /\ a < b /\ Total + (b - a) <= MaxLen /\ NLeaves < MaxLeaves
  /\ LET v == SubSeq(Val(d.mem, d.t[i]), a + 1, b)
         x == RIns(d.mem, d.t[i], n, v)
     IN  Do(F([op |-> "insself", i |-> i, n |-> n, a |-> a, b |-> b]), (i :> x[1]) @@ d.t, x[2])
DoRem == \E i \in I : \E a, b \in 0..Len(s[i]) :
  /\ a <= b
  /\ LET x == RRem(d.mem, d.t[i], a, b) IN
     Do(F([op |-> "rm", i |-> i, a |-> a, b |-> b]), (i :> x[1]) @@ d.t, x[2])
DoSplit == \E i \in I, j \in 1..NI : \E n \in 0..Len(s[i]) :
  /\ j \notin I /\ \A k \in 1..(j-1) : k \in I
  /\ NLeaves < MaxLeaves
  /\ LET x == RSplit(d.mem, d.t[i], n) IN
     Do(F([op |-> "split", i |-> i, j |-> j, n |-> n]), (i :> x[1]) @@ (j :> x[2]) @@ d.t, x[3])
\* Join of two or of all ropes, in any order; the result takes the smallest number.
Orders == {q \in UNION {[1..m -> I] : m \in 2..3} : \A x, y \in DOMAIN q : x # y => q[x] # q[y]}
RECURSIVE JoinAll(_, _, _)
JoinAll(mem, acc, q) ==
  IF q = <<>> THEN <<acc, mem>> ELSE LET x == RJoin(mem, acc, d.t[q[1]]) IN JoinAll(x[2], x[1], SubSeq(q, 2, Len(q)))
DoJoin == \E q \in Orders :
  LET x == JoinAll(d.mem, d.t[q[1]], SubSeq(q, 2, Len(q)))
      j == CHOOSE k \in RangeOf(q) : \A y \in RangeOf(q) : k <= y
  IN  Do(F([op |-> "join", os |-> q, j |-> j]), (j :> x[1]) @@ Drop(d.t, RangeOf(q)), x[2])
DoRebuild == \E i \in I : LET x == RRebuild(d.mem, d.t[i]) IN Do(F([op |-> "rebuild", i |-> i]), (i :> x[1]) @@ d.t, x[2])
DoRebalance == \E i \in I : LET x == RRebalance(d.mem, d.t[i]) IN Do(F([op |-> "rebalance", i |-> i]), (i :> x[1]) @@ d.t, x[2])

Next == \/ DoIns
        \/ DoRem
        \/ Ops \in {"edit", "all"} /\ DoInsSelf
        \/ Ops \in {"all", "both"} /\ (DoSplit \/ DoJoin \/ DoRebuild \/ DoRebalance)

\* The last Window operations count too, without their arguments.
Recent == LET n == MaxI(2, Len(path) - Window) IN [x \in 1..(Len(path) - n) |-> <<path[n + x].op>>]
View == <<[i \in I |-> Shape(d.t[i])], ok, Recent>>

Refines ==
  /\ ok
  /\ I = DOMAIN d.t
  /\ \A i \in I : Val(d.mem, d.t[i]) = s[i] /\ d.t[i].len = Len(s[i]) /\ LengthsOK(d.t[i])
SeparateInv == Disjoint(d.t)

RECURSIVE ObsAll(_, _)
ObsAll(t, J) == IF J = {} THEN <<>> ELSE LET i == CHOOSE i \in J : TRUE
                IN ObsRope(t, i, Slices, Ops # "edit") \o ObsAll(t, J \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(s', DOMAIN s')))
=============================================================================
