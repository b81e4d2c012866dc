----------------------------- MODULE MCInterval -----------------------------
(***************************************************************************)
(* All interval trees the design reaches with low ends 1..N and high ends  *)
(* low (empty), low+1, low+3 or N+2, as far as Highs allows; rejected      *)
(* (reversed) intervals included.                                          *)
(***************************************************************************)
EXTENDS Interval, IntervalMap, Json
CONSTANTS N, Highs, Focus
VARIABLES d, s, ok, path

HiOf(lo) == CASE Highs = 2 -> {lo + 1, N + 2}
              [] Highs = 3 -> {lo, lo + 2, N + 2}
              [] OTHER     -> {lo, lo + 1, lo + 3, N + 2}
Top == N + 3     \* queries range over 0..Top

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Fresh == Len(path) + 100

Init ==
  /\ d = Nil
  /\ s = Post(S0, [op |-> "new", i |-> 1])
  /\ ok = TRUE
  /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>

DoIns(op, lo, hi) ==
  LET x == Ins(d, lo, hi, Fresh, op = "put")
  IN  Do([op |-> op, i |-> 1, lo |-> lo, hi |-> hi, v |-> Fresh, p |-> 0, r |-> x[2]], x[1])
DoRemove(lo) ==
  LET x == Rem(d, lo) IN Do([op |-> "remove", i |-> 1, lo |-> lo, p |-> 0, r |-> x[2]], x[1])
DoReject(op, lo) == Do([op |-> op, i |-> 1, lo |-> lo, hi |-> lo - 1, v |-> Fresh, p |-> 1, r |-> <<>>], d)

Next ==
  \E lo \in 1..N :
    \/ \E hi \in HiOf(lo), op \in {"put", "add"} : (op = "put" \/ hi = N + 2) /\ DoIns(op, lo, hi)
    \/ DoRemove(lo)
    \/ Focus = "map" /\ \E op \in {"put", "add"} : DoReject(op, lo)

View == <<Shape(d), ok>>

Refines ==
  /\ ok
  /\ Walk(d) = SortedEntries(s[1], DOMAIN s[1])
  /\ \A lo \in 0..Top : Search(d, lo) = Found(s[1], lo)
OverlapInv == \A a \in 0..Top : \A b \in a..Top : Ov(d, a, b) = Sorted(Hits(s[1], a, b))
BalanceInv == WellFormed(d) /\ Balanced(Len(Walk(d)), d.h)

Heights == AsSeq(AllHeights(N))
Final == CASE Focus = "balance"  -> <<[op |-> "height", i |-> 1, p |-> 0, any |-> Heights]>>
          [] Focus = "overlaps" -> ObsOverlaps(s', 1, Top)
          [] OTHER              -> Obs(s', 1, Top)
Emit == PrintT(ToJson(path' \o Final))
=============================================================================
