----------------------------- MODULE PropeModel -----------------------------
(***************************************************************************)
(* CONTRACT of package prope: an instance is a version, an immutable       *)
(* sequence.  Operations create further versions; reading an existing one  *)
(* always yields the same.                                                 *)
(***************************************************************************)
EXTENDS Common
LOCAL R == INSTANCE RopeModel

S0 == EmptyFn

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> o.vals) @@ s
    [] o.op = "ins"   -> (o.j :> R!InsertAt(s[o.i], o.n, o.vals)) @@ s
    \* inserts the slice [a, b) read from version m
    [] o.op = "insof" -> (o.j :> R!InsertAt(s[o.i], o.n, R!Cut(s[o.m], o.a, o.b))) @@ s
    [] o.op = "rm"    -> (o.j :> R!RemoveAt(s[o.i], o.a, o.b)) @@ s
    [] o.op = "split" -> (o.j :> R!Cut(s[o.i], 0, o.n)) @@ ((o.k :> R!Cut(s[o.i], o.n, Len(s[o.i]))) @@ s)
    [] o.op = "join"  -> (o.j :> R!Concat(s, o.os)) @@ s
    [] OTHER -> s

Answer(q, o) == R!Answer(q, o)
Accept(s, o) == Returns(o) /\ (o.op \in {"reset", "cfg", "new", "split", "join"} \/ o.r = Answer(s[o.i], o))
ObsVersion(s, i, all) == R!ObsRope(s, i, all, FALSE)
=============================================================================
