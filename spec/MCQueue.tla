------------------------------ MODULE MCQueue -------------------------------
(***************************************************************************)
(* All queues with at most L items over the values 0..V-1 (0 is the zero   *)
(* value), told apart also by their last Window operations; with NI > 1,   *)
(* families of copies.                                                     *)
(***************************************************************************)
EXTENDS Queue, SeqModel, Json
CONSTANTS L, V, NI, Window, MaxInit
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Vals == 0..(V-1)
Seqs(n) == UNION {[1..m -> Vals] : m \in 0..n}
OfOp(i, q) == [op |-> "of", i |-> i, vals |-> q, p |-> 0, r |-> <<>>]

Init == \/ \E q \in Seqs(MaxInit) :
             /\ d = QOf(Q0, 1, q)
             /\ s = Post(S0, OfOp(1, q))
             /\ ok = TRUE
             /\ path = <<OfOp(1, q)>>
             /\ Evaluated(<<d, s, path>>)
        \/ /\ d = QNew(Q0, 1)
           /\ s = (1 :> <<>>)
           /\ ok = TRUE
           /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>
           /\ Evaluated(<<d, s, path>>)

Next == \E i \in DOMAIN s :
  \/ Len(s[i]) < L /\ \E v \in Vals : Do([op |-> "enq", i |-> i, v |-> v, p |-> 0, r |-> <<>>], QEnq(d, i, v))
  \/ Do(S1(s, "deq", i), QDeq(d, i))
  \/ Do(S1(s, "trydeq", i), QDeq(d, i))
  \/ Do(S1(s, "deqall", i), QClear(d, i))   \* leaves an empty list, as dequeuing one by one does
  \/ Do(S1(s, "clear", i), QClear(d, i))
  \/ \E j \in 1..NI : i # j /\ (j \in DOMAIN s \/ j = Cardinality(DOMAIN s) + 1)
       /\ Do([op |-> "copy", i |-> i, j |-> j, p |-> 0, r |-> <<>>], QOf(d, j, QVals(d, i)))

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<[i \in DOMAIN s |-> QVals(d, i)], d.len, ok, Recent>>

Refines ==
  /\ ok
  /\ \A i \in DOMAIN s :
       /\ QVals(d, i) = s[i]
       /\ d.len[i] = Len(s[i])
       /\ Bwd(d.m, i) = [x \in 1..Len(s[i]) |-> Fwd(d.m, i)[Len(s[i]) + 1 - x]]

\* Observe everything, and the underlying list once more by using the queue.
RECURSIVE ObsAll(_, _)
ObsAll(t, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE IN ObsQueue(t, i) \o ObsAll(t, I \ {i})
RECURSIVE UseAll(_, _)
UseAll(t, I) ==
  IF I = {} THEN <<>>
  ELSE LET i == CHOOSE i \in I : TRUE
           e == [op |-> "enq", i |-> i, v |-> 7, p |-> 0, r |-> <<>>]
           t1 == Post(t, e)
           o1 == S1(t1, "trydeq", i)
           t2 == Post(t1, o1)
       IN <<e, S1(t1, "each", i), o1, S1(t2, "deqall", i), S1(Post(t2, [op |-> "deqall", i |-> i]), "trydeq", i),
            S1(Post(t2, [op |-> "deqall", i |-> i]), "len", i)>> \o UseAll(Post(t2, [op |-> "deqall", i |-> i]), I \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(s', DOMAIN s') \o UseAll(s', DOMAIN s')))
=============================================================================
