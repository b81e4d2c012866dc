------------------------------- MODULE Prope --------------------------------
(***************************************************************************)
(* DESIGN of prope/prope.go.  Nodes live in a heap and are shared between  *)
(* versions: a leaf [a, off, len] is a slice of array a, an inner node     *)
(* [l, r, len] names its children.  An edit makes new nodes along its path *)
(* and new arrays for the leaves it touches; only Rebuild (and Rebalance)  *)
(* writes to an existing node.                                             *)
(*   m: [node: id -> node, arr: id -> cells]                               *)
(***************************************************************************)
EXTENDS Common
CONSTANTS SL, JL, RR

P0 == [node |-> EmptyFn, arr |-> EmptyFn]
IsLeaf(x) == "a" \in DOMAIN x
NodeId(m) == Cardinality(DOMAIN m.node) + 1
ArrId(m)  == Cardinality(DOMAIN m.arr) + 1
AddNode(m, x) == <<NodeId(m), [m EXCEPT !.node = (NodeId(m) :> x) @@ @]>>

\* Operations return <<node id, memory>>.
RECURSIVE PNew(_, _, _, _)
PNew(m, a, off, len) ==
  IF len > SL
  THEN LET l == PNew(m, a, off, len \div 2)
           r == PNew(l[2], a, off + len \div 2, len - len \div 2)
       IN  AddNode(r[2], [l |-> l[1], r |-> r[1], len |-> len])
  ELSE AddNode(m, [a |-> a, off |-> off, len |-> len])
PFresh(m, q) == LET a == ArrId(m) IN PNew([m EXCEPT !.arr = (a :> q) @@ @], a, 0, Len(q))

RECURSIVE PVal(_, _)
PVal(m, t) == LET x == m.node[t] IN
  IF IsLeaf(x) THEN SubSeq(m.arr[x.a], x.off + 1, x.off + x.len) ELSE PVal(m, x.l) \o PVal(m, x.r)

\* A new inner node, turned into a leaf when it is short.
PInner(m, l, r, adjust) ==
  LET n == m.node[l].len + m.node[r].len IN
  IF adjust /\ n < JL
  THEN LET a == ArrId(m) IN AddNode([m EXCEPT !.arr = (a :> (PVal(m, l) \o PVal(m, r))) @@ @], [a |-> a, off |-> 0, len |-> n])
  ELSE AddNode(m, [l |-> l, r |-> r, len |-> n])

RECURSIVE PIns(_, _, _, _)
PIns(m, t, n, v) ==
  LET x == m.node[t] IN
  IF IsLeaf(x) THEN LET q == PVal(m, t) IN PFresh(m, SubSeq(q, 1, n) \o v \o SubSeq(q, n + 1, Len(q)))
  ELSE IF n < m.node[x.l].len
       THEN LET y == PIns(m, x.l, n, v) IN PInner(y[2], y[1], x.r, FALSE)
       ELSE LET y == PIns(m, x.r, n - m.node[x.l].len, v) IN PInner(y[2], x.l, y[1], FALSE)

Bound(a, b, n) == LET a2 == MinI(MaxI(a, 0), n)
                      b2 == MinI(MaxI(b, 0), n)
                  IN  IF a2 >= b2 THEN <<0, 0>> ELSE <<a2, b2>>
RECURSIVE PRem(_, _, _, _)
PRem(m, t, a, b) ==
  LET x == m.node[t] IN
  IF IsLeaf(x) THEN LET q == PVal(m, t) IN PFresh(m, SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q)))
  ELSE LET ll == m.node[x.l].len
           lb == Bound(a, b, ll)
           y == PRem(m, x.l, lb[1], lb[2])
           rb == Bound(a - ll, b - ll, m.node[x.r].len)
           z == PRem(y[2], x.r, rb[1], rb[2])
       IN  PInner(z[2], y[1], z[1], TRUE)

\* <<left id, right id, memory>>
RECURSIVE PSplit(_, _, _)
PSplit(m, t, n) ==
  LET x == m.node[t] IN
  IF IsLeaf(x)
  THEN LET l == PNew(m, x.a, x.off, n)
           r == PNew(l[2], x.a, x.off + n, x.len - n)
       IN  <<l[1], r[1], r[2]>>
  ELSE LET ll == m.node[x.l].len IN
       IF n = ll THEN <<x.l, x.r, m>>
       ELSE IF n < ll
            THEN LET y == PSplit(m, x.l, n)
                     z == PInner(y[3], y[2], x.r, TRUE)
                 IN  <<y[1], z[1], z[2]>>
            ELSE LET y == PSplit(m, x.r, n - ll)
                     z == PInner(y[3], x.l, y[1], TRUE)
                 IN  <<z[1], y[2], z[2]>>

RECURSIVE PJoinFrom(_, _, _)
PJoinFrom(m, acc, q) ==
  IF q = <<>> THEN <<acc, m>> ELSE LET y == PInner(m, acc, q[1], TRUE) IN PJoinFrom(y[2], y[1], SubSeq(q, 2, Len(q)))
PJoin(m, q) == IF q = <<>> THEN PFresh(m, <<>>) ELSE PJoinFrom(m, q[1], SubSeq(q, 2, Len(q)))

\* In place: memory only.
PRebuild(m, t) ==
  IF IsLeaf(m.node[t]) THEN m
  ELSE LET y == PFresh(m, PVal(m, t)) IN [y[2] EXCEPT !.node[t] = y[2].node[y[1]]]
RECURSIVE PRebalance(_, _)
PRebalance(m, t) ==
  LET x == m.node[t] IN
  IF IsLeaf(x) THEN m
  ELSE LET ll == m.node[x.l].len
           rl == m.node[x.r].len
       IN  IF 10 * ll > RR * rl \/ 10 * rl > RR * ll THEN PRebuild(m, t)
           ELSE PRebalance(PRebalance(m, x.l), x.r)

RECURSIVE PLens(_, _)
PLens(m, t) == LET x == m.node[t] IN
  IF IsLeaf(x) THEN TRUE ELSE x.len = m.node[x.l].len + m.node[x.r].len /\ PLens(m, x.l) /\ PLens(m, x.r)

\* Canonical form of the nodes shared below the versions v.  (Arrays are
\* never written once a leaf refers to them, so their sharing is left out.)
RECURSIVE Dfs(_, _)
Dfs(m, t) == LET x == m.node[t] IN
  IF IsLeaf(x) THEN <<<<"leaf", x.len, t>>>> ELSE <<<<"node", x.len, t>>>> \o Dfs(m, x.l) \o Dfs(m, x.r)
RECURSIVE DfsAll(_, _, _)
DfsAll(m, v, i) == IF i \notin DOMAIN v THEN <<>> ELSE <<<<"version", i, 0>>>> \o Dfs(m, v[i]) \o DfsAll(m, v, i + 1)
Canon(m, v) ==
  LET q == DfsAll(m, v, 1)
      First(n) == CHOOSE x \in 1..Len(q) : q[x][3] = q[n][3] /\ \A y \in 1..(x-1) : q[y][3] # q[n][3]
  IN  [n \in 1..Len(q) |-> <<q[n][1], q[n][2], First(n)>>]
NLeavesOf(m, t) == Cardinality({n \in 1..Len(Dfs(m, t)) : Dfs(m, t)[n][1] = "leaf"})
=============================================================================
