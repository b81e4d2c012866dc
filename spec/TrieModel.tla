----------------------------- MODULE TrieModel ------------------------------
(***************************************************************************)
(* CONTRACT of package trie: an instance is a function from non-empty keys *)
(* (sequences of bytes) to values.                                         *)
(***************************************************************************)
EXTENDS Common
LOCAL SX == INSTANCE SequencesExt

S0 == EmptyFn

Post(s, o) ==
  CASE o.op = "reset"  -> EmptyFn
    [] o.op = "new"    -> (o.i :> EmptyFn) @@ s
    [] o.op = "put"    -> IF o.k = <<>> THEN s ELSE (o.i :> ((o.k :> o.v) @@ s[o.i])) @@ s
    [] o.op = "remove" -> IF o.k \in DOMAIN s[o.i] THEN (o.i :> Without(s[o.i], o.k)) @@ s ELSE s
    [] OTHER -> s

PrefixOf(a, b) == Len(a) <= Len(b) /\ \A x \in 1..Len(a) : a[x] = b[x]
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
ByteOrder(S) == SX!SetToSortSeq(S, LexLess)

\* r lists the keys of S in byte order.
ListsKeys(r, S) == Len(r) = Cardinality(S) /\ {r[x] : x \in 1..Len(r)} = S /\ \A x \in 2..Len(r) : LexLess(r[x-1], r[x])

Longest(m, q) ==
  LET P == {n \in 1..Len(q) : SubSeq(q, 1, n) \in DOMAIN m} IN
  IF P = {} THEN <<>> ELSE SubSeq(q, 1, CHOOSE n \in P : \A y \in P : y <= n)

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op = "get"  -> o.r = (IF o.k \in DOMAIN s[o.i] THEN <<s[o.i][o.k], 1>> ELSE <<0, 0>>)
       [] o.op = "has"  -> o.r = <<B(o.k \in DOMAIN s[o.i])>>
       [] o.op = "size" -> o.r = <<Cardinality(DOMAIN s[o.i])>>
       [] o.op = "keys" -> ListsKeys(o.r, DOMAIN s[o.i])
       [] o.op = "prefix"  -> ListsKeys(o.r, {x \in DOMAIN s[o.i] : PrefixOf(o.k, x)})
       [] o.op = "longest" -> o.r = Longest(s[o.i], o.k)
       [] OTHER -> TRUE

Rec1(op, k, r) == [op |-> op, i |-> 1, k |-> k, p |-> 0, r |-> r]
\* All answers about instance 1 for the queries Q (a sequence of keys).
ObsTrie(m, Q, map) ==
  IF map
  THEN [x \in 1..Len(Q) |-> Rec1("get", Q[x], IF Q[x] \in DOMAIN m THEN <<m[Q[x]], 1>> ELSE <<0, 0>>)]
       \o [x \in 1..Len(Q) |-> Rec1("has", Q[x], <<B(Q[x] \in DOMAIN m)>>)]
       \o <<[op |-> "size", i |-> 1, p |-> 0, r |-> <<Cardinality(DOMAIN m)>>]>>
  ELSE <<[op |-> "keys", i |-> 1, p |-> 0, r |-> ByteOrder(DOMAIN m)]>>
       \o [x \in 1..Len(Q) |-> Rec1("prefix", Q[x], ByteOrder({y \in DOMAIN m : PrefixOf(Q[x], y)}))]
       \o [x \in 1..Len(Q) |-> Rec1("longest", Q[x], Longest(m, Q[x]))]
       \o <<[op |-> "keys", i |-> 1, p |-> 0, r |-> ByteOrder(DOMAIN m)]>>
=============================================================================
