-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* DESIGN of rope/rope.go.  A tree is a leaf [a, off, len], a slice of     *)
(* array a, or a node [l, r, len] with the cached length.  Arrays live in  *)
(* mem (array -> cells); a slice has no spare capacity, so inserting       *)
(* allocates, while removing moves cells within the slice.                 *)
(* SL, JL: SplitLength, JoinLength; RR: ten times the RebalanceRatio.      *)
(***************************************************************************)
EXTENDS Common
CONSTANTS SL, JL, RR

IsLeaf(t) == "a" \in DOMAIN t
NewId(mem) == Cardinality(DOMAIN mem) + 1
Alloc(mem, q) == (NewId(mem) :> q) @@ mem
Leaf(a, off, len) == [a |-> a, off |-> off, len |-> len]
Inner(l, r) == [l |-> l, r |-> r, len |-> l.len + r.len]

\* New on the slice [off, off+len) of array a
RECURSIVE RNew(_, _, _)
RNew(a, off, len) ==
  IF len > SL THEN Inner(RNew(a, off, len \div 2), RNew(a, off + len \div 2, len - len \div 2)) ELSE Leaf(a, off, len)

RECURSIVE Val(_, _)
Val(mem, t) == IF IsLeaf(t) THEN SubSeq(mem[t.a], t.off + 1, t.off + t.len) ELSE Val(mem, t.l) \o Val(mem, t.r)

\* Operations return <<tree, memory>>.
Fresh(mem, q) == <<RNew(NewId(mem), 0, Len(q)), Alloc(mem, q)>>
Adjust(x) ==
  LET t == x[1] IN
  IF IsLeaf(t) THEN <<RNew(t.a, t.off, t.len), x[2]>>
  ELSE IF t.len < JL THEN LET q == Val(x[2], t) IN <<Leaf(NewId(x[2]), 0, Len(q)), Alloc(x[2], q)>>
  ELSE x

RECURSIVE RIns(_, _, _, _)
RIns(mem, t, n, v) ==
  IF IsLeaf(t)
  THEN LET q == Val(mem, t)
           q2 == SubSeq(q, 1, n) \o v \o SubSeq(q, n + 1, Len(q))
       IN  Adjust(<<Leaf(NewId(mem), 0, Len(q2)), Alloc(mem, q2)>>)
  ELSE IF n < t.l.len
       THEN LET x == RIns(mem, t.l, n, v) IN Adjust(<<Inner(x[1], t.r), x[2]>>)
       ELSE LET x == RIns(mem, t.r, n - t.l.len, v) IN Adjust(<<Inner(t.l, x[1]), x[2]>>)

RECURSIVE RRem(_, _, _, _)
RRem(mem, t, a, b) ==
  IF IsLeaf(t)
  THEN LET n == b - a
           m2 == [mem EXCEPT ![t.a] = [x \in 1..Len(@) |->
                     IF x > t.off + a /\ x <= t.off + t.len - n THEN @[x + n] ELSE @[x]]]
       IN  Adjust(<<Leaf(t.a, t.off, t.len - n), m2>>)
  ELSE LET ll == t.l.len
           rl == t.r.len
           ls == MinI(a, ll)
           le == MinI(b, ll)
           rs == MaxI(0, MinI(a - ll, rl))
           re == MaxI(0, MinI(b - ll, rl))
           x == IF ls < ll THEN RRem(mem, t.l, ls, le) ELSE <<t.l, mem>>
           y == IF re > 0 THEN RRem(x[2], t.r, rs, re) ELSE <<t.r, x[2]>>
       IN  Adjust(<<Inner(x[1], y[1]), y[2]>>)

RJoin(mem, l, r) == Adjust(<<Inner(l, r), mem>>)

\* <<left, right, memory>>
RECURSIVE RSplit(_, _, _)
RSplit(mem, t, n) ==
  IF IsLeaf(t) THEN <<RNew(t.a, t.off, n), RNew(t.a, t.off + n, t.len - n), mem>>
  ELSE IF n = t.l.len THEN <<t.l, t.r, mem>>
  ELSE IF n < t.l.len
       THEN LET x == RSplit(mem, t.l, n)
                y == RJoin(x[3], x[2], t.r)
            IN  <<x[1], y[1], y[2]>>
       ELSE LET x == RSplit(mem, t.r, n - t.l.len)
                y == RJoin(x[3], t.l, x[1])
            IN  <<y[1], x[2], y[2]>>

RRebuild(mem, t) == IF IsLeaf(t) THEN <<t, mem>> ELSE Fresh(mem, Val(mem, t))
RECURSIVE RRebalance(_, _)
RRebalance(mem, t) ==
  IF IsLeaf(t) THEN <<t, mem>>
  ELSE IF 10 * t.l.len > RR * t.r.len \/ 10 * t.r.len > RR * t.l.len THEN RRebuild(mem, t)
  ELSE LET x == RRebalance(mem, t.l)
           y == RRebalance(x[2], t.r)
       IN  <<Inner(x[1], y[1]), y[2]>>

RECURSIVE Leaves(_)
Leaves(t) == IF IsLeaf(t) THEN <<t>> ELSE Leaves(t.l) \o Leaves(t.r)
RECURSIVE Shape(_)
Shape(t) == IF IsLeaf(t) THEN <<t.len>> ELSE <<Shape(t.l), Shape(t.r)>>
RECURSIVE LengthsOK(_)
LengthsOK(t) == IsLeaf(t) \/ (t.len = t.l.len + t.r.len /\ LengthsOK(t.l) /\ LengthsOK(t.r))
\* No two leaves (of any rope) share a cell: parts can be edited separately.
Disjoint(ts) ==
  LET all == UNION {{<<i, n>> : n \in 1..Len(Leaves(ts[i]))} : i \in DOMAIN ts}
      At(x) == Leaves(ts[x[1]])[x[2]]
  IN \A x, y \in all : x # y /\ At(x).a = At(y).a =>
       At(x).off + At(x).len <= At(y).off \/ At(y).off + At(y).len <= At(x).off
=============================================================================
