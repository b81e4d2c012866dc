------------------------------ MODULE MCBtree ------------------------------
(***************************************************************************)
(* All trees the B-tree design reaches over the keys 1..N.  The driver     *)
(* lets every abstract key stand for a group of consecutive real keys, so  *)
(* that nodes of 64 entries split where the model's nodes of M do.         *)
(***************************************************************************)
EXTENDS Btree, OrderedMap, Json
CONSTANTS N
VARIABLES d, s, ok, path

Do(o, d2) == d' = d2 /\ s' = Post(s, o) /\ ok' = Accept(s, o) /\ path' = Append(path, o) /\ Evaluated(<<d', s', path'>>)
Fresh == Len(path) + 100

Init ==
  /\ d = EmptyTree
  /\ s = Post(S0, [op |-> "new", i |-> 1])
  /\ ok = TRUE
  /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>

DoPut(k)    == Do([op |-> "put", i |-> 1, k |-> k, v |-> Fresh, p |-> 0, r |-> <<>>], Put(d, k, Fresh))
DoRemove(k) == Do([op |-> "remove", i |-> 1, k |-> k, p |-> 0, r |-> <<>>], Rem(d, k))
Next == \E k \in 1..N : DoPut(k) \/ DoRemove(k)

View == <<Shape(d.root, d.h), d.h, ok>>

Refines ==
  /\ ok
  /\ Walk(d.root, d.h) = EachRes(s[1])
  /\ d.n = Cardinality(DOMAIN s[1])
  /\ \A k \in 0..(N+1) : Find(d.root, k, d.h) = GetRes(s[1], k)
WellFormed == WF(d.root, d.h, 1, N + 1, TRUE)

Emit == PrintT(ToJson(path' \o ObsMap(s', 1, 0..(N+1))))
=============================================================================
