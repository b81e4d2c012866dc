---------------------------- MODULE UListModel -----------------------------
(***************************************************************************)
(* CONTRACT of package ulist.  Instance i is a sequence q of integers and  *)
(* its iterators, which have a position: 1..Len(q) at an element (valid),  *)
(* 0 before the first and Len(q) + 1 behind the last one.  An iterator     *)
(* taken from an empty list, or left behind by the removal of the only     *)
(* element, has position Gone: it is invalid and not moved any more.       *)
(* Editing the list otherwise than with an iterator invalidates that       *)
(* iterator; it is then forgotten.                                         *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Gone == -1
Ins(q, x, v) == SubSeq(q, 1, x) \o <<v>> \o SubSeq(q, x + 1, Len(q))   \* behind x elements
Del(q, x) == SubSeq(q, 1, x - 1) \o SubSeq(q, x + 1, Len(q))
Rev(q) == [x \in 1..Len(q) |-> q[Len(q) + 1 - x]]

U(q, it) == [q |-> q, it |-> it]
At(s, o) == s[o.i].it[o.t]
\* Position after the step of iterator o.t.
Moved(s, o) ==
  LET n == Len(s[o.i].q) IN
  CASE o.op = "begin" -> IF n = 0 THEN Gone ELSE 1
    [] o.op = "end"   -> IF n = 0 THEN Gone ELSE n
    [] o.op = "next"  -> MinI(At(s, o) + 1, n + 1)
    [] o.op = "prev"  -> MaxI(At(s, o) - 1, 0)
    [] o.op = "addafter" -> At(s, o) + 1
    [] o.op = "remove"   -> IF n = 1 THEN Gone ELSE At(s, o)
    \* o.n steps forward, or -o.n back; o.n removals, all of existing elements
    [] o.op = "moven"    -> MaxI(MinI(At(s, o) + o.n, n + 1), 0)
    [] o.op = "removen"  -> IF n = o.n THEN Gone ELSE At(s, o)
    [] OTHER -> At(s, o)

Post(s, o) ==
  CASE o.op = "reset"     -> EmptyFn
    [] o.op = "new"       -> (o.i :> U(<<>>, EmptyFn)) @@ s
    [] o.op = "pushback"  -> [s EXCEPT ![o.i] = U(Append(@.q, o.v), EmptyFn)]
    [] o.op = "pushfront" -> [s EXCEPT ![o.i] = U(<<o.v>> \o @.q, EmptyFn)]
    \* o.n elements o.v, o.v + 1 ... in turn
    [] o.op = "pushbackn" -> [s EXCEPT ![o.i] = U(@.q \o [x \in 1..o.n |-> o.v + x - 1], EmptyFn)]
    [] o.op = "pushfrontn" -> [s EXCEPT ![o.i] = U([x \in 1..o.n |-> o.v + o.n - x] \o @.q, EmptyFn)]
    [] o.op \in {"begin", "end", "next", "prev", "moven"} -> [s EXCEPT ![o.i].it = (o.t :> Moved(s, o)) @@ @]
    [] o.op = "addafter"  -> [s EXCEPT ![o.i] = U(Ins(@.q, At(s, o), o.v), (o.t :> Moved(s, o)))]
    [] o.op = "addbefore" -> [s EXCEPT ![o.i] = U(Ins(@.q, At(s, o) - 1, o.v), (o.t :> Moved(s, o)))]
    [] o.op = "remove"    -> [s EXCEPT ![o.i] = U(Del(@.q, At(s, o)), (o.t :> Moved(s, o)))]
    [] o.op = "removen"   -> [s EXCEPT ![o.i] = U(SubSeq(@.q, 1, At(s, o) - 1) \o SubSeq(@.q, At(s, o) + o.n, Len(@.q)),
                                                 (o.t :> Moved(s, o)))]
    [] OTHER -> s

\* What an iterator at position x shows: whether it is valid, and its element.
Shows(q, x) == IF x \in 1..Len(q) THEN <<1, q[x]>> ELSE <<0, 0>>
Answer(s, o) ==
  LET t == Post(s, o) IN
  CASE o.op = "size" -> <<Len(s[o.i].q)>>
    [] o.op = "walk" -> s[o.i].q
    [] o.op = "back" -> Rev(s[o.i].q)
    [] o.op \in {"begin", "end", "cur", "addafter", "addbefore", "remove", "moven", "removen"} -> Shows(t[o.i].q, t[o.i].it[o.t])
    \* moving also returns whether the iterator is valid
    [] o.op \in {"next", "prev"} -> LET x == Shows(t[o.i].q, t[o.i].it[o.t]) IN <<x[1]>> \o x
    [] OTHER -> <<>>

Accept(s, o) == Returns(o) /\ (o.op = "reset" \/ o.r = Answer(s, o))

A(s, o) == [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN Answer(s, o) ELSE o[f]]
ObsU(s, i) == <<A(s, [op |-> "size", i |-> i]), A(s, [op |-> "walk", i |-> i]), A(s, [op |-> "back", i |-> i])>>
\* The iterator runs past the end, past the beginning, and comes back.
RECURSIVE Drive(_, _)
Drive(s, ops) == IF ops = <<>> THEN <<>> ELSE LET o == A(s, ops[1]) IN <<o>> \o Drive(Post(s, o), SubSeq(ops, 2, Len(ops)))
Rep(o, n) == [x \in 1..n |-> o]
ObsIter(s, i, t) ==
  IF t \notin DOMAIN s[i].it THEN <<>>
  ELSE LET N == [op |-> "next", i |-> i, t |-> t]
           P == [op |-> "prev", i |-> i, t |-> t]
           C == [op |-> "cur", i |-> i, t |-> t]
           n == Len(s[i].q)
           x == s[i].it[t]
       IN  IF x = Gone THEN <<A(s, C)>>
           ELSE Drive(s, <<C>> \o Rep(N, n + 2 - x) \o <<P, C>> \o Rep(P, n + 1) \o <<N, C>> \o Rep(N, n) \o <<N, P, C>>)
=============================================================================
