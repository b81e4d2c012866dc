------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* DESIGN of queue/queue.go: a linked list of values (LinkedList) and a    *)
(* separate length counter.  Instance i owns list i.  Nodes are taken from *)
(* the unused ones, as the garbage collector would.                        *)
(***************************************************************************)
EXTENDS LinkedList

\* d: [m: linked memory, val: node -> value, len: queue -> length]
Q0 == [m |-> Mem0, val |-> EmptyFn, len |-> EmptyFn]
QNew(d, i) == [d EXCEPT !.m = NewList(@, i), !.len = (i :> 0) @@ @]

Live(d) == UNION {RangeOf(Fwd(d.m, i)) : i \in DOMAIN d.len}
NewNode(d) == CHOOSE n \in 1..(Cardinality(Live(d)) + 1) : n \notin Live(d) /\ \A k \in 1..(n-1) : k \in Live(d)

QEnq(d, i, v) ==
  LET n == NewNode(d) IN
  [d EXCEPT !.m = PushBackNode(@, i, n), !.val = (n :> v) @@ @, !.len[i] = @ + 1]
QDeq(d, i) ==
  IF d.m.front[i] = 0 THEN d
  ELSE [d EXCEPT !.m = Unlink(@, i, d.m.front[i]), !.len[i] = @ - 1]
QClear(d, i) == [d EXCEPT !.m = NewList(@, i), !.len[i] = 0]
QVals(d, i) == LET q == Fwd(d.m, i) IN [x \in 1..Len(q) |-> d.val[q[x]]]
RECURSIVE QFill(_, _, _)
QFill(d, i, q) == IF q = <<>> THEN d ELSE QFill(QEnq(d, i, q[1]), i, SubSeq(q, 2, Len(q)))
QOf(d, i, q) == QFill(QNew(d, i), i, q)
=============================================================================
