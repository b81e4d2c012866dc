------------------------------ MODULE SetModel ------------------------------
(***************************************************************************)
(* CONTRACT of packages hashset, mapset and set: the state of an instance  *)
(* is a finite set of integers.  Operands of the algebra are instances,    *)
(* named by their numbers in o.os, or literal elements o.vals.             *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn

ElemsOf(q) == {q[x] : x \in 1..Len(q)}
Operands(s, o) == [x \in 1..Len(o.os) |-> s[o.os[x]]]

UnionAll(A, q)  == A \cup UNION RangeOf(q)
InterAll(A, q)  == {x \in A : \A n \in 1..Len(q) : x \in q[n]}
DiffAll(A, q)   == {x \in A : \A n \in 1..Len(q) : x \notin q[n]}
\* the elements that occur in one single set of all those involved
SymAll(A, q) ==
  {x \in UnionAll(A, q) : Cardinality({n \in 1..Len(q) : x \in q[n]}) + B(x \in A) = 1}

Result(op, A, q) ==
  CASE op \in {"union", "iunion", "cunion"} -> UnionAll(A, q)
    [] op \in {"inter", "iinter", "cinter"} -> InterAll(A, q)
    [] op \in {"diff", "idiff", "cdiff"}    -> DiffAll(A, q)
    [] OTHER                                -> SymAll(A, q)

NewOps   == {"union", "inter", "diff", "sym"}      \* result becomes instance j
ConstOps == {"cunion", "cinter", "cdiff", "csym"}  \* same with literal elements
InOps    == {"iunion", "iinter", "idiff"}          \* in place

Post(s, o) ==
  CASE o.op = "reset"  -> EmptyFn
    [] o.op = "new"    -> (o.i :> ElemsOf(o.vals)) @@ s
    [] o.op = "put"    -> (o.i :> (s[o.i] \cup {o.k})) @@ s
    [] o.op = "remove" -> (o.i :> (s[o.i] \ {o.k})) @@ s
    [] o.op = "putrange"    -> (o.i :> (s[o.i] \cup (o.k .. (o.k + o.n - 1)))) @@ s
    [] o.op = "removerange" -> (o.i :> (s[o.i] \ (o.k .. (o.k + o.n - 1)))) @@ s
    [] o.op = "clear"  -> (o.i :> {}) @@ s
    [] o.op = "clone"  -> (o.j :> s[o.i]) @@ s
    [] o.op \in NewOps   -> (o.j :> Result(o.op, s[o.i], Operands(s, o))) @@ s
    [] o.op \in ConstOps -> (o.j :> Result(o.op, s[o.i], <<ElemsOf(o.vals)>>)) @@ s
    [] o.op \in InOps    -> (o.i :> Result(o.op, s[o.i], Operands(s, o))) @@ s
    [] OTHER           -> s

\* r lists S, each element once, in increasing order (the driver sorts what
\* comes in no particular order).
Lists(r, S) == Len(r) = Cardinality(S) /\ ElemsOf(r) = S /\ \A x \in 2..Len(r) : r[x-1] < r[x]

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op = "has"  -> o.r = <<B(o.k \in s[o.i])>>
       [] o.op = "size" -> o.r = <<Cardinality(s[o.i])>>
       [] o.op \in {"each", "keys", "map", "string"} -> Lists(o.r, s[o.i])
       [] o.op = "eq"   -> o.r = <<B(s[o.i] = s[o.j])>>
       [] o.op = "sub"  -> o.r = <<B(s[o.i] \subseteq s[o.j])>>
       [] o.op = "sup"  -> o.r = <<B(s[o.j] \subseteq s[o.i])>>
       [] o.op = "psub" -> o.r = <<B(s[o.i] \subseteq s[o.j] /\ s[o.i] # s[o.j])>>
       [] o.op = "psup" -> o.r = <<B(s[o.j] \subseteq s[o.i] /\ s[o.i] # s[o.j])>>
       [] o.op = "disj" -> o.r = <<B(s[o.i] \cap s[o.j] = {})>>
       \* in-place operations return the set they leave in the receiver
       [] o.op \in InOps -> Lists(o.r, Result(o.op, s[o.i], Operands(s, o)))
       [] OTHER -> TRUE

Step(op, i, r) == [op |-> op, i |-> i, p |-> 0, r |-> r]
ObsContents(s) == LET q == Sorted(DOMAIN s) IN [x \in 1..Len(q) |-> Step("each", q[x], Sorted(s[q[x]]))]
ObsSet(s, i, U, wrapper) ==
  LET q == Sorted(U) IN
  <<Step("each", i, Sorted(s[i])), Step("size", i, <<Cardinality(s[i])>>)>>
  \o [x \in 1..Len(q) |-> [op |-> "has", i |-> i, k |-> q[x], p |-> 0, r |-> <<B(q[x] \in s[i])>>]]
  \o (IF wrapper THEN <<Step("keys", i, Sorted(s[i])), Step("map", i, Sorted(s[i])), Step("string", i, Sorted(s[i]))>> ELSE <<>>)
=============================================================================
