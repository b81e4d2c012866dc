------------------------------- MODULE MCAvl -------------------------------
(***************************************************************************)
(* All trees of up to N entries the AVL design reaches, checked against    *)
(* the ordered-map contract, with one behaviour emitted per transition.    *)
(* The design only compares keys, so a state is the shape of the tree with *)
(* its cached heights; a new key is put between two neighbours (or at an   *)
(* end), half way, so that every position in the order is reachable in     *)
(* every state whatever the keys present are called.                       *)
(***************************************************************************)
EXTENDS Avl, OrderedMap, Json
CONSTANTS N, Focus
VARIABLES d, s, ok, path
vars == <<d, s, ok, path>>

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Fresh == Len(path) + 100     \* a value never used before in this behaviour

Init ==
  /\ d = Nil
  /\ s = Post(S0, [op |-> "new", i |-> 1])
  /\ ok = TRUE
  /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>

DoPut(k)    == Do([op |-> "put", i |-> 1, k |-> k, v |-> Fresh, p |-> 0, r |-> <<>>], Add(d, k, Fresh))
DoRemove(k) == Do([op |-> "remove", i |-> 1, k |-> k, p |-> 0, r |-> <<>>], Rem(d, k))

\* Keys are in 1..Top-1; ties to neighbours are halved, and Gap never fails
\* because no behaviour puts 29 keys into nested gaps.
Top  == 1073741824
Keys == Walk(d)
Edge(x) == IF x = 0 THEN 0 ELSE IF x > Len(Keys) THEN Top ELSE Keys[x][1]
Gap(x)  == (Edge(x) + Edge(x + 1)) \div 2
Gaps    == {Gap(x) : x \in 0..Len(Keys)}

Next ==
  \/ Len(Keys) < N /\ \E k \in Gaps : DoPut(k)
  \/ \E x \in 1..Len(Keys) : DoPut(Keys[x][1]) \/ DoRemove(Keys[x][1])
  \/ \E k \in Gaps : DoRemove(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Bare(_)
Bare(t) == IF t = Nil THEN <<>> ELSE <<t.h, Bare(t.l), Bare(t.r)>>
View == <<Bare(d), ok>>

\* ---- properties -------------------------------------------------------
GapsExist  == \A x \in 0..Len(Keys) : Edge(x) < Gap(x) /\ Gap(x) < Edge(x + 1)
Refines    == /\ ok /\ Keys = EachRes(s[1])
              /\ \A x \in 0..Len(Keys) : Search(d, Gap(x)) = <<0, 0>> /\ Search(d, Edge(x)) = GetRes(s[1], Edge(x))
EachAgrees == EachOK(s[1], EachRes(s[1]))
BalanceInv == WellFormed(d) /\ Balanced(Len(Keys), d.h)

\* ---- behaviours for the real code -------------------------------------
Heights == AsSeq(AllHeights(N))
Obs ==
  IF Focus = "balance"
  THEN <<[op |-> "height", i |-> 1, p |-> 0, any |-> Heights],
         [op |-> "maxcost", i |-> 1, p |-> 0, any |-> [x \in 1..(CostBound(Cardinality(DOMAIN s'[1])) + 1) |-> <<x - 1>>]]>>
  ELSE LET o == path'[Len(path')]
       IN  <<[op |-> "get", i |-> 1, k |-> o.k, p |-> 0, r |-> GetRes(s'[1], o.k)]>>
           \o ObsMap(s', 1, DOMAIN s'[1] \cup DOMAIN s[1]) \o <<[op |-> "each", i |-> 1, p |-> 0, r |-> EachRes(s'[1])]>>
Emit == PrintT(ToJson(path' \o Obs))
=============================================================================
