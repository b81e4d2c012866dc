------------------------------- MODULE MCTrie -------------------------------
(***************************************************************************)
(* Every ternary search tree shape that at most P present keys over the    *)
(* alphabet 1..A with at most L bytes reach (the values are ignored when   *)
(* states are compared).                                                   *)
(***************************************************************************)
EXTENDS Trie, TrieModel, Json
CONSTANTS A, L, P, Map
VARIABLES d, s, ok, path

\* d: [root, n]
Strings == UNION {[1..m -> 1..A] : m \in 1..L}
Queries == ByteOrder(UNION {[1..m -> 1..A] : m \in 0..L} \cup {[x \in 1..(L+1) |-> 1], [x \in 1..(L+1) |-> A]})

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Init == /\ d = [root |-> Nil, n |-> 0]
        /\ s = (1 :> EmptyFn)
        /\ ok = TRUE
        /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>
        /\ Evaluated(<<d, s, path>>)

DPut(k, v) == IF k = <<>> THEN d ELSE [root |-> TPut(d.root, k, v, 1), n |-> d.n + B(~THas(d.root, k))]
DRem(k) == IF k = <<>> \/ ~THas(d.root, k) THEN d ELSE [root |-> TRem(d.root, k, 1), n |-> d.n - 1]
PutStep(k, v) == [op |-> "put", i |-> 1, k |-> k, v |-> v, p |-> 0, r |-> <<>>]
RemStep(k) == [op |-> "remove", i |-> 1, k |-> k, p |-> 0, r |-> <<>>]

Next == \E k \in Strings \cup {<<>>} :
          \/ /\ (d.n < P \/ THas(d.root, k))
             /\ LET v == Len(path) IN Do(PutStep(k, v), DPut(k, v))
          \/ Do(RemStep(k), DRem(k))

View == <<TShape(d.root), d.n, ok>>

Refines ==
  /\ ok
  /\ d.n = Cardinality(DOMAIN s[1])
  /\ TKeys(d.root, <<>>) = ByteOrder(DOMAIN s[1])
  /\ \A x \in DOMAIN Queries : LET q == Queries[x] IN
       /\ THas(d.root, q) = (q \in DOMAIN s[1])
       /\ THas(d.root, q) => TGet(d.root, q, 1).val = s[1][q]
       /\ TLong(d.root, q, 1, 0) = Longest(s[1], q)
       /\ TPrefix(d.root, q) = ByteOrder({y \in DOMAIN s[1] : PrefixOf(q, y)})
ShapeInv == NoDeadNodes(d.root)

Emit == PrintT(ToJson(path' \o ObsTrie(s'[1], Queries, Map)))
=============================================================================
