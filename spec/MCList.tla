------------------------------- MODULE MCList -------------------------------
(***************************************************************************)
(* Every pointer structure that NL lists reach with N nodes, including the *)
(* stale pointers of removed nodes that get inserted again.                *)
(***************************************************************************)
EXTENDS LinkedList, ListModel, Json
CONSTANTS N, NL, Window
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

RECURSIVE News(_)
News(i) == IF i = 0 THEN Mem0 ELSE NewList(News(i - 1), i)
Init == /\ d = News(NL)
        /\ s = [i \in 1..NL |-> <<>>]
        /\ ok = TRUE
        /\ path = [i \in 1..NL |-> [op |-> "new", i |-> i, p |-> 0, r |-> <<>>]]
        /\ Evaluated(<<d, s, path>>)

Op(op, i, n, r) == [op |-> op, i |-> i, n |-> n, p |-> 0, r |-> r]
OpM(op, i, m, n, r) == [op |-> op, i |-> i, m |-> m, n |-> n, p |-> 0, r |-> r]

\* A push by value makes a new node: only for a node that was never in a list.
Fresh(n) == n \notin DOMAIN d.next
Free == {n \in 1..N : n \notin Members(s) /\ \A k \in 1..(n-1) : Fresh(n) => ~Fresh(k)}

Next == \E i \in 1..NL :
  \/ \E n \in Free :
       \/ Do(Op("pushback", i, n, <<>>), PushBackNode(d, i, n))
       \/ Do(Op("pushfront", i, n, <<>>), PushFrontNode(d, i, n))
       \/ Fresh(n) /\ Do(Op("pushbackv", i, n, <<>>), PushBackNode(d, i, n))
       \/ Fresh(n) /\ Do(Op("pushfrontv", i, n, <<>>), PushFrontNode(d, i, n))
       \/ \E m \in RangeOf(s[i]) :
            \/ Do(OpM("insafter", i, m, n, <<n>>), InsertAfter(d, i, m, n))
            \/ Do(OpM("insbefore", i, m, n, <<n>>), InsertBefore(d, i, m, n))
  \/ \E n \in RangeOf(s[i]) : Do(Op("remove", i, n, <<>>), Unlink(d, i, n))

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<d, ok, Recent>>

Refines ==
  /\ ok
  /\ \A i \in 1..NL : Fwd(d, i) = s[i] /\ Bwd(d, i) = Rev(s[i])

RECURSIVE ObsAll(_)
ObsAll(i) == IF i = 0 THEN <<>> ELSE ObsAll(i - 1) \o ObsList(s', i)
Emit == PrintT(ToJson(path' \o ObsAll(NL)))
=============================================================================
