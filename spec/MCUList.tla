------------------------------ MODULE MCUList -------------------------------
(***************************************************************************)
(* All divisions of at most N elements into blocks of at most E that the   *)
(* operations reach, with one iterator at every position.                  *)
(***************************************************************************)
EXTENDS UList, UListModel, Json
CONSTANTS N, Es, Window
VARIABLES d, t, e, s, ok, path
Live == "t" \in DOMAIN t     \* t is <<>> or [t |-> iterator]

Do(o, d2, t2) ==
  /\ d' = d2 /\ t' = t2 /\ e' = e
  /\ s' = Post(s, o)
  /\ LET full == A(s, o) IN ok' = Accept(s, full) /\ path' = Append(path, full)
  /\ Evaluated(<<d', t', s', path'>>)
T(x) == [t |-> x]
None == [n |-> 0]

Init == \E x \in Es : LET o == [op |-> "new", i |-> 1, e |-> x, p |-> 0, r |-> <<>>] IN
  /\ d = <<>> /\ t = None /\ e = x
  /\ s = Post(S0, o) /\ ok = TRUE /\ path = <<o>>
  /\ Evaluated(<<d, t, s, path>>)

Size == Len(Flat(d))
V == Len(path)
Next ==
  \/ Size < N /\ Do([op |-> "pushback", i |-> 1, v |-> V], PushBack(d, V, e), None)
  \/ Size < N /\ Do([op |-> "pushfront", i |-> 1, v |-> V], PushFront(d, V, e), None)
  \/ Do([op |-> "begin", i |-> 1, t |-> 1], d, T(Begin(d)))
  \/ Do([op |-> "end", i |-> 1, t |-> 1], d, T(End(d)))
  \/ Live /\ s[1].it[1] # Gone /\ Do([op |-> "next", i |-> 1, t |-> 1], d, T(MoveNext(d, t.t)))
  \/ Live /\ s[1].it[1] # Gone /\ Do([op |-> "prev", i |-> 1, t |-> 1], d, T(MovePrev(d, t.t)))
  \/ Live /\ Valid(d, t.t) /\ \/ Size < N /\ LET x == AddAfter(d, t.t, V, e) IN Do([op |-> "addafter", i |-> 1, t |-> 1, v |-> V], x[1], T(x[2]))
                              \/ Size < N /\ LET x == AddBefore(d, t.t, V, e) IN Do([op |-> "addbefore", i |-> 1, t |-> 1, v |-> V], x[1], T(x[2]))
                              \/ LET x == RemoveAt(d, t.t) IN Do([op |-> "remove", i |-> 1, t |-> 1], x[1], T(x[2]))

Shape == [b \in 1..Len(d) |-> Len(d[b])]
Recent == LET n == MaxI(1, Len(path) - Window) IN [x \in 1..(Len(path) - n) |-> path[n + x].op]
View == <<Shape, t, e, ok, Recent>>

Refines ==
  /\ ok
  /\ Flat(d) = s[1].q
  /\ \A b \in 1..Len(d) : Len(d[b]) \in 1..e
  /\ IF Live THEN 1 \in DOMAIN s[1].it /\ PosOf(d, t.t) = s[1].it[1] /\ Valid(d, t.t) = (s[1].it[1] \in 1..Len(s[1].q))
     ELSE DOMAIN s[1].it = {}
Emit == PrintT(ToJson(path' \o ObsU(s', 1) \o ObsIter(s', 1, 1) \o ObsU(s', 1)))
=============================================================================
