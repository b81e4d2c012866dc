------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* All heap arrays with at most L elements of ranks 1..K, built from any   *)
(* initial data of at most MaxInit elements and any pushes and pops.       *)
(* Elements of equal rank are not told apart here (which of them comes     *)
(* first is the implementation's choice); recorded traces do.              *)
(***************************************************************************)
EXTENDS Heap, HeapModel, Json
CONSTANTS K, L, MaxInit, Distinct, Window
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

El(k) == <<k, 0>>
Data == {q \in UNION {[1..m -> 1..K] : m \in 0..MaxInit} : Distinct => \A x, y \in DOMAIN q : x # y => q[x] # q[y]}
Init == \E q \in Data :
          LET v == [x \in 1..Len(q) |-> El(q[x])]
              o == [op |-> "of", i |-> 1, vals |-> v, p |-> 0, r |-> <<>>]
          IN  /\ d = HOf(v)
              /\ s = Post(S0, o)
              /\ ok = TRUE
              /\ path = <<o>>
              /\ Evaluated(<<d, s, path>>)

Next == \/ Len(d) < L /\ \E k \in 1..K : (Distinct => El(k) \notin RangeOf(d))
             /\ Do([op |-> "push", i |-> 1, v |-> El(k), p |-> 0, r |-> <<>>], HPush(d, El(k)))
        \/ Do([op |-> "pop", i |-> 1, p |-> 0, r |-> HRes(d)], HPop(d))

Recent == SubSeq(path, MaxI(2, Len(path) - Window + 1), Len(path))
\* Every initial slice counts, though many give the same array.
View == <<d, ok, Recent, IF Len(path) = 1 THEN path ELSE <<>>>>
Refines == ok /\ BagOf(d) = s[1] /\ HeapOrder(d)

\* Peek and pop until empty, and twice more.
RECURSIVE Drain(_, _)
Drain(h, n) ==
  IF n = 0 THEN <<>>
  ELSE <<[op |-> "size", i |-> 1, p |-> 0, r |-> <<Len(h)>>], [op |-> "peek", i |-> 1, p |-> 0, r |-> HRes(h)],
         [op |-> "pop", i |-> 1, p |-> 0, r |-> HRes(h)]>> \o Drain(HPop(h), n - 1)
Emit == PrintT(ToJson(path' \o Drain(d', Len(d') + 2) \o <<[op |-> "size", i |-> 1, p |-> 0, r |-> <<0>>]>>))
=============================================================================
