----------------------------- MODULE SetAlgebra -----------------------------
(***************************************************************************)
(* DESIGN of the algebra in package set: each operation as the loop over   *)
(* operands the code runs; removals walk a snapshot of the keys.           *)
(***************************************************************************)
EXTENDS Common

RECURSIVE IUnion(_, _), IInter(_, _), IDiff(_, _), SymLoop(_, _, _), SymEach(_, _, _)
IUnion(A, q) == IF q = <<>> THEN A ELSE IUnion(A \cup Head(q), Tail(q))
IInter(A, q) == IF q = <<>> THEN A ELSE IInter(A \ {x \in A : x \notin Head(q)}, Tail(q))
IDiff(A, q)  == IF q = <<>> THEN A ELSE IDiff(A \ {x \in A : x \in Head(q)}, Tail(q))
\* one operand's elements, in any order: seen ones leave the result, others enter
SymEach(res, seen, E) ==
  IF E = {} THEN <<res, seen>>
  ELSE LET x == CHOOSE x \in E : TRUE
       IN  IF x \in seen THEN SymEach(res \ {x}, seen, E \ {x})
           ELSE SymEach(res \cup {x}, seen \cup {x}, E \ {x})
SymLoop(res, seen, q) ==
  IF q = <<>> THEN res
  ELSE LET n == SymEach(res, seen, Head(q)) IN SymLoop(n[1], n[2], Tail(q))

Algebra(op, A, q) ==
  CASE op \in {"union", "iunion", "cunion"} -> IUnion(A, q)
    [] op \in {"inter", "iinter", "cinter"} -> IInter(A, q)
    [] op \in {"diff", "idiff", "cdiff"}    -> IDiff(A, q)
    [] OTHER                                -> SymLoop(A, A, q)

\* the comparisons as the code derives them
DEq(A, C)   == Cardinality(A) = Cardinality(C) /\ Cardinality(IUnion(A, <<C>>)) = Cardinality(A)
DSub(A, C)  == \A x \in A : x \in C
DRel(op, A, C) ==
  CASE op = "eq"   -> DEq(A, C)
    [] op = "sub"  -> DSub(A, C)
    [] op = "sup"  -> DSub(C, A)
    [] op = "psub" -> ~DEq(A, C) /\ DSub(A, C)
    [] op = "psup" -> ~DEq(A, C) /\ DSub(C, A)
    [] OTHER       -> Cardinality(IInter(A, <<C>>)) = 0
=============================================================================
