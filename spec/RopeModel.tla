----------------------------- MODULE RopeModel ------------------------------
(***************************************************************************)
(* CONTRACT of package rope: an instance is a sequence of integers.        *)
(* Splitting and joining consume their operands: the results take over     *)
(* their storage.  Positions are zero-based and valid.                     *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Cut(q, a, b) == SubSeq(q, a + 1, b)
InsertAt(q, n, v) == SubSeq(q, 1, n) \o v \o SubSeq(q, n + 1, Len(q))
RemoveAt(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))
RECURSIVE Concat(_, _)
Concat(s, os) == IF os = <<>> THEN <<>> ELSE s[os[1]] \o Concat(s, SubSeq(os, 2, Len(os)))
Drop(s, I) == [i \in DOMAIN s \ I |-> s[i]]

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> o.vals) @@ s
    [] o.op = "ins"   -> (o.i :> InsertAt(s[o.i], o.n, o.vals)) @@ s
    \* inserts the slice that was just read from the same rope
    [] o.op = "insself" -> (o.i :> InsertAt(s[o.i], o.n, Cut(s[o.i], o.a, o.b))) @@ s
    [] o.op = "rm"    -> (o.i :> RemoveAt(s[o.i], o.a, o.b)) @@ s
    [] o.op = "split" -> (o.i :> Cut(s[o.i], 0, o.n)) @@ ((o.j :> Cut(s[o.i], o.n, Len(s[o.i]))) @@ s)
    [] o.op = "join"  -> (o.j :> Concat(s, o.os)) @@ Drop(s, RangeOf(o.os))
    [] OTHER -> s

Answer(q, o) ==
  CASE o.op = "len"   -> <<Len(q)>>
    [] o.op = "value" -> q
    [] o.op = "leaves" -> q        \* the leaves' values, concatenated
    [] o.op = "slice" -> Cut(q, o.a, o.b)
    [] o.op = "at"    -> <<q[o.n + 1]>>
    [] OTHER -> <<>>

Accept(s, o) == Returns(o) /\ (o.op \in {"reset", "cfg", "new", "split", "join"} \/ o.r = Answer(s[o.i], o))

A1(s, i, o) == [f \in DOMAIN o \cup {"i", "p", "r"} |-> IF f = "i" THEN i ELSE IF f = "p" THEN 0 ELSE IF f = "r" THEN Answer(s[i], o) ELSE o[f]]
\* Every read of instance i; slices only when all = TRUE.
ObsRope(s, i, all, leaves) ==
  LET n == Len(s[i])
      RECURSIVE Ats(_)
      Ats(x) == IF x = n THEN <<>> ELSE <<A1(s, i, [op |-> "at", n |-> x])>> \o Ats(x + 1)
      RECURSIVE Slices(_, _)
      Slices(a, b) == IF a > n THEN <<>> ELSE IF b > n THEN Slices(a + 1, a + 1)
                      ELSE <<A1(s, i, [op |-> "slice", a |-> a, b |-> b])>> \o Slices(a, b + 1)
  IN <<A1(s, i, [op |-> "value"]), A1(s, i, [op |-> "len"])>>
     \o (IF leaves THEN <<A1(s, i, [op |-> "leaves"])>> ELSE <<>>)
     \o Ats(0) \o (IF all THEN Slices(0, 0) ELSE <<>>)
=============================================================================
