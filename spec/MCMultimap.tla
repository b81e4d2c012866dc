----------------------------- MODULE MCMultimap -----------------------------
(***************************************************************************)
(* Every multimap of each kind with keys 1..K, values 1..V and at most L   *)
(* entries, with the order of the values inside.                           *)
(***************************************************************************)
EXTENDS Multimap, MultiModel, Json
CONSTANTS K, V, L, Kinds, Window
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Init == \E kind \in Kinds :
          LET o == [op |-> "new", i |-> 1, kind |-> kind, p |-> 0, r |-> <<>>] IN
          /\ d = DNew(kind)
          /\ s = Post(S0, o)
          /\ ok = TRUE
          /\ path = <<o>>
          /\ Evaluated(<<d, s, path>>)

E(op, k, v) == [op |-> op, i |-> 1, k |-> k, v |-> v, p |-> 0, r |-> <<>>]
Next == \/ \E k \in 1..K, v \in 1..V :
             \/ d.size < L /\ Do(E("put", k, v), DPut(d, k, v))
             \/ Do(E("remove", k, v), DRemove(d, k, v))
        \/ \E k \in 1..K : Do([op |-> "removeall", i |-> 1, k |-> k, p |-> 0, r |-> <<>>], DRemoveAll(d, k))
        \/ Do([op |-> "clear", i |-> 1, p |-> 0, r |-> <<>>], DClear(d))

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<d, ok, Recent>>

RECURSIVE Count(_, _)
Count(q, v) == IF q = <<>> THEN 0 ELSE B(q[1] = v) + Count(SubSeq(q, 2, Len(q)), v)
Refines ==
  /\ ok
  /\ d.size = SumF(s[1].e, DOMAIN s[1].e)
  /\ DOMAIN d.keys = KeysOf(s[1].e)
  /\ \A k \in DOMAIN d.keys : \A v \in 1..V :
       Count(d.keys[k], v) = (IF <<k, v>> \in DOMAIN s[1].e THEN s[1].e[<<k, v>>] ELSE 0)
  /\ ~Dups(d.kind) => \A x \in DOMAIN s[1].e : s[1].e[x] = 1

Emit == PrintT(ToJson(path' \o ObsMulti(s', 1, 0..(K+1))))
=============================================================================
