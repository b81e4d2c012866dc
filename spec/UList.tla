------------------------------- MODULE UList --------------------------------
(***************************************************************************)
(* DESIGN of ulist: blocks of at most E elements, here a sequence of       *)
(* sequences; an iterator is on block b at (zero-based) index x.  One that *)
(* is left on a removed, empty block remembers the block before it:        *)
(* k = "off".  k = "nil": no block at all.                                 *)
(***************************************************************************)
EXTENDS Common

Flat(d) == LET RECURSIVE F(_)
               F(b) == IF b > Len(d) THEN <<>> ELSE d[b] \o F(b + 1)
           IN F(1)
Cap(d, b, E) == b >= 1 /\ b <= Len(d) /\ Len(d[b]) < E
InsBlk(d, b, v) == SubSeq(d, 1, b) \o <<v>> \o SubSeq(d, b + 1, Len(d))  \* behind block b
DelBlk(d, b) == SubSeq(d, 1, b - 1) \o SubSeq(d, b + 1, Len(d))
Put(q, x, v) == SubSeq(q, 1, x) \o <<v>> \o SubSeq(q, x + 1, Len(q))

PushBack(d, v, E)  == IF Cap(d, Len(d), E) THEN [d EXCEPT ![Len(d)] = Append(@, v)] ELSE Append(d, <<v>>)
PushFront(d, v, E) == IF Cap(d, 1, E) THEN [d EXCEPT ![1] = <<v>> \o @] ELSE <<<<v>>>> \o d

It(b, x) == [k |-> "in", b |-> b, x |-> x]
Nil == [k |-> "nil", b |-> 0, x |-> 0]
Begin(d) == IF d = <<>> THEN Nil ELSE It(1, 0)
End(d) == IF d = <<>> THEN Nil ELSE It(Len(d), Len(d[Len(d)]) - 1)
Valid(d, t) == t.k = "in" /\ t.x >= 0 /\ t.x < Len(d[t.b])

MoveNext(d, t) ==
  IF t.k = "off" THEN t
  ELSE IF t.x + 1 < Len(d[t.b]) THEN It(t.b, t.x + 1)
  ELSE IF t.b < Len(d) THEN It(t.b + 1, 0) ELSE It(t.b, Len(d[t.b]))
MovePrev(d, t) ==
  IF t.k = "off" THEN (IF t.b = 0 THEN t ELSE It(t.b, Len(d[t.b]) - 1))
  ELSE IF t.x - 1 >= 0 THEN It(t.b, t.x - 1)
  ELSE IF t.b > 1 THEN It(t.b - 1, Len(d[t.b - 1]) - 1) ELSE It(t.b, -1)

\* The overflowing element goes to the next block, or to a new one.
Overflow(d, b, v, E) == IF Cap(d, b + 1, E) THEN [d EXCEPT ![b + 1] = <<v>> \o @] ELSE InsBlk(d, b, <<v>>)
\* Results <<blocks, iterator>>.
AddAfter(d, t, v, E) ==
  IF Cap(d, t.b, E) THEN <<[d EXCEPT ![t.b] = Put(@, t.x + 1, v)], It(t.b, t.x + 1)>>
  ELSE IF t.x = Len(d[t.b]) - 1 THEN LET d2 == Overflow(d, t.b, v, E) IN <<d2, MoveNext(d2, t)>>
  ELSE LET q == d[t.b]
           d2 == Overflow(d, t.b, q[Len(q)], E)
       IN  <<[d2 EXCEPT ![t.b] = SubSeq(Put(q, t.x + 1, v), 1, Len(q))], It(t.b, t.x + 1)>>
AddBefore(d, t, v, E) ==
  LET w == MovePrev(d, t) IN
  IF ~Valid(d, w) THEN LET d2 == PushFront(d, v, E) IN <<d2, Begin(d2)>> ELSE AddAfter(d, w, v, E)
RemoveAt(d, t) ==
  LET q == d[t.b]
      q2 == SubSeq(q, 1, t.x) \o SubSeq(q, t.x + 2, Len(q))
  IN  IF q2 = <<>> THEN LET d2 == DelBlk(d, t.b) IN
                        <<d2, IF t.b <= Len(d2) THEN It(t.b, 0) ELSE [k |-> "off", b |-> t.b - 1, x |-> 0]>>
      ELSE <<[d EXCEPT ![t.b] = q2], IF t.x = Len(q2) /\ t.b < Len(d) THEN It(t.b + 1, 0) ELSE t>>

\* The contract's position of an iterator.
Before(d, b) == SumF([x \in 1..(b - 1) |-> Len(d[x])], 1..(b - 1))
PosOf(d, t) == CASE t.k = "nil" -> -1
                 [] t.k = "off" -> IF t.b = 0 THEN -1 ELSE Before(d, t.b + 1) + 1
                 [] OTHER -> Before(d, t.b) + t.x + 1
=============================================================================
