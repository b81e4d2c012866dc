-------------------------- MODULE MCIntervalShape --------------------------
(***************************************************************************)
(* All interval trees of up to N entries the design reaches, up to the     *)
(* names of the low ends (see MCAvl) and with the intervals all of the     *)
(* same kind: what matters here is the balancing and the map, not the      *)
(* overlaps (see MCInterval).                                              *)
(***************************************************************************)
EXTENDS Interval, IntervalMap, Json
CONSTANTS N, Focus
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Fresh == Len(path) + 100

Init ==
  /\ d = Nil
  /\ s = Post(S0, [op |-> "new", i |-> 1])
  /\ ok = TRUE
  /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>

DoIns(op, lo, hi) ==
  LET x == Ins(d, lo, hi, Fresh, op = "put")
  IN  Do([op |-> op, i |-> 1, lo |-> lo, hi |-> hi, v |-> Fresh, p |-> 0, r |-> x[2]], x[1])
DoRemove(lo) ==
  LET x == Rem(d, lo) IN Do([op |-> "remove", i |-> 1, lo |-> lo, p |-> 0, r |-> x[2]], x[1])
DoReject(op, lo) == Do([op |-> op, i |-> 1, lo |-> lo, hi |-> lo - 1, v |-> Fresh, p |-> 1, r |-> <<>>], d)

Top  == 1073741824
Keys == Walk(d)
Edge(x) == IF x = 0 THEN 0 ELSE IF x > Len(Keys) THEN Top ELSE Keys[x][1]
Gap(x)  == (Edge(x) + Edge(x + 1)) \div 2
Gaps    == {Gap(x) : x \in 0..Len(Keys)}
Lows    == {Keys[x][1] : x \in 1..Len(Keys)}

Next ==
  \/ Len(Keys) < N /\ \E lo \in Gaps : DoIns("put", lo, lo + 7) \/ DoIns("add", lo, lo)
  \/ \E lo \in Lows : DoIns("put", lo, lo + 5) \/ DoIns("add", lo, lo + 9) \/ DoRemove(lo)
  \/ \E lo \in Gaps : DoRemove(lo)
  \/ Focus = "map" /\ \E lo \in Gaps \cup Lows, op \in {"put", "add"} : DoReject(op, lo)

RECURSIVE Bare(_)
Bare(t) == IF t = Nil THEN <<>> ELSE <<t.h, Bare(t.l), Bare(t.r)>>
View == <<Bare(d), ok>>

GapsExist == \A x \in 0..Len(Keys) : Edge(x) < Gap(x) /\ Gap(x) < Edge(x + 1)
Refines ==
  /\ ok
  /\ Keys = SortedEntries(s[1], DOMAIN s[1])
  /\ \A lo \in Gaps \cup Lows : Search(d, lo) = Found(s[1], lo)
BalanceInv == WellFormed(d) /\ Balanced(Len(Keys), d.h)

Heights == AsSeq(AllHeights(N))
Gets(S) == LET q == AsSeq(S) IN [x \in 1..Len(q) |-> [op |-> "get", i |-> 1, lo |-> q[x], p |-> 0, r |-> Found(s'[1], q[x])]]
Final == IF Focus = "balance" THEN <<[op |-> "height", i |-> 1, p |-> 0, any |-> Heights]>>
         ELSE LET m == s'[1] IN
              <<[op |-> "each", i |-> 1, p |-> 0, r |-> SortedEntries(m, DOMAIN m)],
                [op |-> "size", i |-> 1, p |-> 0, r |-> <<Cardinality(DOMAIN m)>>]>>
              \o Gets(Lows \cup {path'[Len(path')].lo})
Emit == PrintT(ToJson(path' \o Final))
=============================================================================
