----------------------------- MODULE OrderedMap -----------------------------
(***************************************************************************)
(* CONTRACT of every key-value map of the library: avl.Tree, btree.Tree,   *)
(* hashmap.Map.  The state of an instance is a function from the keys      *)
(* present to their values.  Keys are integers standing for the equality   *)
(* classes of real keys, numbered in the order the less function gives.    *)
(* For hashmap the driver sorts what it iterates over, because the order   *)
(* is unspecified; the other maps must deliver it sorted.                  *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn

\* Fewest entries of a height-balanced (AVL) tree of height h.
RECURSIVE MinNodes(_)
MinNodes(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinNodes(h-1) + MinNodes(h-2)
MinNodesTab == [h \in 0..26 |-> MinNodes(h)]
Balanced(n, h) == h \in 0..26 /\ MinNodesTab[h] <= n /\ n <= 2^h - 1
\* Greatest height of an AVL tree of n entries.
MaxHeight(n) == CHOOSE h \in 0..25 : MinNodesTab[h] <= n /\ MinNodesTab[h+1] > n
CostBound(n) == 6 * (MaxHeight(n) + 1)

Post(s, o) ==
  CASE o.op = "reset"    -> EmptyFn
    [] o.op = "new"      -> (o.i :> EmptyFn) @@ s
    [] o.op = "put"      -> (o.i :> ((o.k :> o.v) @@ s[o.i])) @@ s
    \* many puts in a row: keys k, k+1, ..., k+n-1 get values v, v+1, ...
    [] o.op \in {"putrange", "putdown"} -> (o.i :> ([x \in o.k .. (o.k + o.n - 1) |-> o.v + (x - o.k)] @@ s[o.i])) @@ s
    [] o.op = "remove"   -> (o.i :> Without(s[o.i], o.k)) @@ s
    [] o.op = "removerange" -> (o.i :> [x \in DOMAIN s[o.i] \ (o.k .. (o.k + o.n - 1)) |-> s[o.i][x]]) @@ s
    [] o.op = "clear"    -> (o.i :> EmptyFn) @@ s
    [] o.op = "copy"     -> (o.j :> s[o.i]) @@ s
    [] OTHER             -> s

EachOK(m, r) ==
  /\ Len(r) = Cardinality(DOMAIN m)
  /\ \A x \in 1..Len(r) :
       /\ r[x][1] \in DOMAIN m
       /\ m[r[x][1]] = r[x][2]
       /\ x > 1 => r[x-1][1] < r[x][1]

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op = "get"  -> o.r = IF o.k \in DOMAIN s[o.i] THEN <<s[o.i][o.k], 1>> ELSE <<0, 0>>
       [] o.op = "size" -> o.r = <<Cardinality(DOMAIN s[o.i])>>
       [] o.op = "each" -> EachOK(s[o.i], o.r)
       \* <<entries visited by an iteration, reported height>>
       [] o.op = "height" -> Balanced(o.r[1], o.r[2])
       \* <<entries visited by an iteration, less calls of one lookup>>: each
       \* level costs a bounded number of calls.
       [] o.op = "cost" -> o.r[2] <= CostBound(o.r[1])
       \* The most calls a lookup of a present key needs.
       [] o.op = "maxcost" -> o.r[1] <= CostBound(Cardinality(DOMAIN s[o.i]))
       [] OTHER -> TRUE

\* Expected results, for behaviours handed to the real code.
GetRes(m, k) == IF k \in DOMAIN m THEN <<m[k], 1>> ELSE <<0, 0>>
EachRes(m) == [x \in 1..Cardinality(DOMAIN m) |-> LET ks == Sorted(DOMAIN m) IN <<ks[x], m[ks[x]]>>]
AllHeights(n) == {<<x, h>> \in (0..n) \X (0..8) : Balanced(x, h)}

ObsMap(s, i, universe) ==
  LET m == s[i]
      ks == Sorted(universe)
      gets == [x \in 1..Len(ks) |-> [op |-> "get", i |-> i, k |-> ks[x], p |-> 0, r |-> GetRes(m, ks[x])]]
  IN  <<[op |-> "each", i |-> i, p |-> 0, r |-> EachRes(m)],
        [op |-> "size", i |-> i, p |-> 0, r |-> <<Cardinality(DOMAIN m)>>]>> \o gets
=============================================================================
