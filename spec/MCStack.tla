------------------------------ MODULE MCStack -------------------------------
(***************************************************************************)
(* All stacks with at most L values of 0..V-1 as stack/stack.go lays them  *)
(* out: a slice of a backing array, whose dead cells keep old values and   *)
(* are overwritten by later pushes, and which append replaces when it is   *)
(* full.  With NI > 1, families of copies.                                 *)
(***************************************************************************)
EXTENDS SeqModel, Json
CONSTANTS L, V, NI, Window
VARIABLES d, s, ok, path

\* d: stack -> [cells: the whole backing array, len: number in use]
Push(t, v) == IF t.len < Len(t.cells) THEN [cells |-> [t.cells EXCEPT ![t.len + 1] = v], len |-> t.len + 1]
              ELSE \* grows as append does for small slices: 1, 2, 4, 8
                   LET c == IF t.len = 0 THEN 1 ELSE 2 * t.len IN
                   [cells |-> [x \in 1..c |-> IF x <= t.len THEN t.cells[x] ELSE IF x = t.len + 1 THEN v ELSE 0], len |-> t.len + 1]
Pop(t)  == IF t.len = 0 THEN t ELSE [t EXCEPT !.len = @ - 1]
CopyOf(t) == [cells |-> SubSeq(t.cells, 1, t.len), len |-> t.len]
ValsOf(t) == SubSeq(t.cells, 1, t.len)

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Init == /\ d = (1 :> [cells |-> <<>>, len |-> 0])
        /\ s = (1 :> <<>>)
        /\ ok = TRUE
        /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>
        /\ Evaluated(<<d, s, path>>)

Next == \E i \in DOMAIN s :
  \/ Len(s[i]) < L /\ \E v \in 0..(V-1) :
       Do([op |-> "push", i |-> i, v |-> v, p |-> 0, r |-> <<>>], (i :> Push(d[i], v)) @@ d)
  \/ Do(S1(s, "pop", i), (i :> Pop(d[i])) @@ d)
  \/ \E j \in 1..NI : i # j /\ (j \in DOMAIN s \/ j = Cardinality(DOMAIN s) + 1)
       /\ Do([op |-> "copy", i |-> i, j |-> j, p |-> 0, r |-> <<>>], (j :> CopyOf(d[i])) @@ d)

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<d, ok, Recent>>
Refines == ok /\ \A i \in DOMAIN s : ValsOf(d[i]) = s[i]

RECURSIVE ObsAll(_, _)
ObsAll(t, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE IN ObsStack(t, i) \o ObsAll(t, I \ {i})
\* Pop everything and twice more.
RECURSIVE Drain(_, _, _)
Drain(t, i, n) == IF n = 0 THEN <<>> ELSE <<S1(t, "top", i), S1(t, "pop", i)>> \o Drain(Post(t, [op |-> "pop", i |-> i]), i, n - 1)
RECURSIVE DrainAll(_, _)
DrainAll(t, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE
   IN Drain(t, i, Len(t[i]) + 2) \o <<[op |-> "size", i |-> i, p |-> 0, r |-> <<0>>]>> \o DrainAll(t, I \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(s', DOMAIN s') \o DrainAll(s', DOMAIN s')))
=============================================================================
