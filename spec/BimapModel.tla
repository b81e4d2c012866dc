----------------------------- MODULE BimapModel -----------------------------
(***************************************************************************)
(* CONTRACT of package bimap: an instance is a one-to-one set of pairs     *)
(* <<key, value>>.  A map given to Of may hold a value several times; then *)
(* one pair of each value survives, and the result of the step, the pairs  *)
(* held afterwards, tells which.                                           *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
PSet(q) == {q[x] : x \in 1..Len(q)}
OneToOne(S) == \A x, y \in S : (x[1] = y[1] \/ x[2] = y[2]) => x = y
OfResults(P) == {S \in SUBSET P : OneToOne(S) /\ {x[2] : x \in S} = {x[2] : x \in P}}

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> {}) @@ s
    [] o.op = "of"    -> (o.i :> PSet(o.r)) @@ s
    [] o.op = "add"   -> (o.i :> ({x \in s[o.i] : x[1] # o.k /\ x[2] # o.v} \cup {<<o.k, o.v>>})) @@ s
    [] o.op = "rmf"   -> (o.i :> {x \in s[o.i] : x[1] # o.k}) @@ s
    [] o.op = "rmr"   -> (o.i :> {x \in s[o.i] : x[2] # o.v}) @@ s
    [] o.op = "clear" -> (o.i :> {}) @@ s
    [] o.op = "copy"  -> (o.j :> s[o.i]) @@ s
    [] OTHER -> s

\* Pairs in increasing order of the keys, as the driver lists them.
ByKey(S) == LET q == Sorted({x[1] : x \in S}) IN [n \in 1..Len(q) |-> CHOOSE x \in S : x[1] = q[n]]
Fwd1(S, k) == LET P == {x \in S : x[1] = k} IN IF P = {} THEN <<0, 0>> ELSE <<(CHOOSE x \in P : TRUE)[2], 1>>
Rev1(S, v) == LET P == {x \in S : x[2] = v} IN IF P = {} THEN <<0, 0>> ELSE <<(CHOOSE x \in P : TRUE)[1], 1>>

Answer(S, o) ==
  CASE o.op = "len"  -> <<Cardinality(S)>>
    [] o.op = "each" -> ByKey(S)
    [] o.op = "getf" -> Fwd1(S, o.k)
    [] o.op = "getr" -> Rev1(S, o.v)
    [] o.op = "hasf" -> <<Fwd1(S, o.k)[2]>>
    [] o.op = "hasr" -> <<Rev1(S, o.v)[2]>>
    [] OTHER -> <<>>

\* A permitted outcome of Of: one-to-one, and of every value one pair.  The
\* conditions are those of OfResults.
OfOK(P, S) == S \subseteq P /\ OneToOne(S) /\ {x[2] : x \in S} = {x[2] : x \in P}

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op \in {"reset", "new", "copy"} -> TRUE
       [] o.op = "of" -> OfOK(PSet(o.vals), PSet(o.r)) /\ o.r = ByKey(PSet(o.r))
       [] OTHER -> o.r = Answer(s[o.i], o)

ObsBimap(s, i, U) ==
  LET q == Sorted(U)
      A(o) == [f \in DOMAIN o \cup {"i", "p", "r"} |-> IF f = "i" THEN i ELSE IF f = "p" THEN 0 ELSE IF f = "r" THEN Answer(s[i], o) ELSE o[f]]
      RECURSIVE Per(_)
      Per(x) == IF x > Len(q) THEN <<>>
                ELSE <<A([op |-> "getf", k |-> q[x]]), A([op |-> "getr", v |-> q[x]]),
                       A([op |-> "hasf", k |-> q[x]]), A([op |-> "hasr", v |-> q[x]])>> \o Per(x + 1)
  IN <<A([op |-> "each"]), A([op |-> "len"])>> \o Per(1)
=============================================================================
