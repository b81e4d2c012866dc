---------------------------- MODULE MCSetAlgebra ----------------------------
(***************************************************************************)
(* Every operation of the algebra, or every comparison, on every receiver  *)
(* and every list of up to MaxOps operands over the elements 1..N, with    *)
(* the receiver (and repetitions) as operand, and a second in-place        *)
(* operation after the first.  Sets 1..3 exist; 4 receives new results.    *)
(* Kinds, hash functions and insertion orders vary in the driver.          *)
(***************************************************************************)
EXTENDS SetAlgebra, SetModel, Json
CONSTANTS N, MaxOps, Focus, Depth, Second
VARIABLES s, ok, path

NewSets == 3
Init ==
  \E A, C \in SUBSET (1..N), D \in (IF MaxOps >= 2 THEN SUBSET (1..N) ELSE {{}}) :
    LET sets == <<A, C, D>>
        os == [x \in 1..NewSets |-> [op |-> "new", i |-> x, vals |-> Sorted(sets[x]), p |-> 0, r |-> <<>>]]
    IN  /\ s = <<A, C, D>>
        /\ ok = TRUE
        /\ path = os
        /\ Evaluated(<<s, path>>)

Do(o) ==
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<s', path'>>)

OpLists == CASE Second /\ Len(path) > NewSets -> {<<1>>, <<2>>}     \* what a second operation may use
             [] MaxOps = 1 -> {<<>>, <<1>>, <<2>>, <<2, 2>>}
             [] OTHER      -> {<<2, 3>>, <<1, 2>>, <<2, 3, 2>>}

Alg(op, os) ==
  LET q == [x \in 1..Len(os) |-> s[os[x]]]
      res == Algebra(op, s[1], q)
  IN  /\ Assert(res = Result(op, s[1], q), <<"algebra", op, s[1], q>>)
      /\ Do([op |-> op, i |-> 1, os |-> os, j |-> 4, p |-> 0, r |-> IF op \in InOps THEN Sorted(res) ELSE <<>>])
Const(op) ==
  /\ Assert(Algebra(op, s[1], <<s[2]>>) = Result(op, s[1], <<s[2]>>), <<"algebra", op, s>>)
  /\ Do([op |-> op, i |-> 1, vals |-> Sorted(s[2]), j |-> 4, p |-> 0, r |-> <<>>])

Rel(op, j) ==
  Do([op |-> op, i |-> 1, j |-> j, p |-> 0, r |-> <<B(DRel(op, s[1], s[j]))>>])

Next ==
  /\ Len(path) < NewSets + Depth
  /\ IF Focus = "algebra"
     THEN \/ \E op \in NewOps \cup InOps, os \in OpLists : Alg(op, os)
          \/ MaxOps = 1 /\ Len(path) = NewSets /\ \E op \in ConstOps : Const(op)
     ELSE \E op \in {"eq", "sub", "sup", "psub", "psup", "disj"}, j \in {1, 2} : Rel(op, j)

Refines == ok

Emit == PrintT(ToJson(path' \o ObsContents(s')))
=============================================================================
