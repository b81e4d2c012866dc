----------------------------- MODULE ListModel -----------------------------
(***************************************************************************)
(* CONTRACT of package list.  Instance i is the sequence of its member     *)
(* nodes; a node is a positive integer, which is also its value.  A node   *)
(* that is no member of any list is free: new, or removed from some list   *)
(* and about to be inserted again.                                         *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Members(s) == UNION {RangeOf(s[i]) : i \in DOMAIN s}
Pos(q, n) == CHOOSE x \in 1..Len(q) : q[x] = n
Rev(q) == [x \in 1..Len(q) |-> q[Len(q) + 1 - x]]

Ins(q, x, n) == SubSeq(q, 1, x) \o <<n>> \o SubSeq(q, x + 1, Len(q))
Del(q, x) == SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q))

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> <<>>) @@ s
    [] o.op \in {"pushback", "pushbackv"}   -> (o.i :> Append(s[o.i], o.n)) @@ s
    [] o.op \in {"pushfront", "pushfrontv"} -> (o.i :> (<<o.n>> \o s[o.i])) @@ s
    [] o.op = "insafter"  -> (o.i :> Ins(s[o.i], Pos(s[o.i], o.m), o.n)) @@ s
    [] o.op = "insbefore" -> (o.i :> Ins(s[o.i], Pos(s[o.i], o.m) - 1, o.n)) @@ s
    [] o.op = "remove"    -> (o.i :> Del(s[o.i], Pos(s[o.i], o.n))) @@ s
    [] OTHER -> s

From(q, n) == IF n = 0 THEN <<>> ELSE SubSeq(q, Pos(q, n), Len(q))
EndO(q, x) == IF q = <<>> THEN 0 ELSE q[x]

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op \in {"insafter", "insbefore"} -> o.r = <<o.n>>
       [] o.op = "ends" -> o.r = <<EndO(s[o.i], 1), EndO(s[o.i], Len(s[o.i]))>>
       [] o.op = "walk" -> o.r = s[o.i]
       [] o.op = "back" -> o.r = Rev(s[o.i])
       \* n is a member, or 0 for the nil node
       [] o.op \in {"each", "eachnode"}       -> o.r = From(s[o.i], o.n)
       [] o.op \in {"eachrev", "eachrevnode"} -> o.r = From(Rev(s[o.i]), o.n)
       [] OTHER -> TRUE

ObsList(s, i) ==
  LET q == s[i]
      S(op, r) == [op |-> op, i |-> i, p |-> 0, r |-> r]
      N(op, n, r) == [op |-> op, i |-> i, n |-> n, p |-> 0, r |-> r]
      Per(n) == LET a == From(q, n)
                    b == From(Rev(q), n)
                IN <<N("each", n, a), N("eachnode", n, a), N("eachrev", n, b), N("eachrevnode", n, b)>>
      RECURSIVE All(_)
      All(x) == IF x > Len(q) THEN <<>> ELSE Per(q[x]) \o All(x + 1)
  IN <<S("ends", <<EndO(q, 1), EndO(q, Len(q))>>), S("walk", q), S("back", Rev(q))>> \o Per(0) \o All(1)
=============================================================================
