---------------------------- MODULE IntervalMap ----------------------------
(***************************************************************************)
(* CONTRACT of package interval.  An instance maps the low end of each     *)
(* stored interval to <<high end, value>>.  Endpoints are integers that    *)
(* stand for the ordered values of the real endpoint type.                 *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn

Entry(m, lo) == <<lo, m[lo][1], m[lo][2]>>
Found(m, lo) == IF lo \in DOMAIN m THEN <<1>> \o Entry(m, lo) ELSE <<0>>

Post(s, o) ==
  CASE o.op = "reset"  -> EmptyFn
    [] o.op = "new"    -> (o.i :> EmptyFn) @@ s
    [] o.op = "put" /\ o.lo <= o.hi -> (o.i :> ((o.lo :> <<o.hi, o.v>>) @@ s[o.i])) @@ s
    \* Add keeps what is there.
    [] o.op = "add" /\ o.lo <= o.hi -> (o.i :> (s[o.i] @@ (o.lo :> <<o.hi, o.v>>))) @@ s
    [] o.op = "remove" -> (o.i :> Without(s[o.i], o.lo)) @@ s
    \* n intervals [k, k+w), [k+1, k+1+w), ... with values v, v+1, ...
    [] o.op = "putrange" -> (o.i :> ([x \in o.lo .. (o.lo + o.n - 1) |-> <<x + o.w, o.v + (x - o.lo)>>] @@ s[o.i])) @@ s
    [] o.op = "removerange" -> (o.i :> [x \in DOMAIN s[o.i] \ (o.lo .. (o.lo + o.n - 1)) |-> s[o.i][x]]) @@ s
    [] OTHER           -> s

Hits(m, lo, hi) == {x \in DOMAIN m : x < hi /\ m[x][1] > lo}

SortedEntries(m, S) == LET q == Sorted(S) IN [x \in 1..Len(q) |-> Entry(m, q[x])]

\* r is exactly the entries of m with low ends in S, sorted.
IsListing(m, S, r) ==
  /\ Len(r) = Cardinality(S)
  /\ \A x \in 1..Len(r) :
       /\ r[x][1] \in S
       /\ r[x] = Entry(m, r[x][1])
       /\ x > 1 => r[x-1][1] < r[x][1]

\* Answers (low ends only) to all queries [a, b) with 0 <= a <= b <= n.
Queries(n) == [x \in 1..((n+1)*(n+1)) |-> <<(x-1) \div (n+1), (x-1) % (n+1)>>]
OvAll(m, n) == LET q == SelectSeq(Queries(n), LAMBDA p : p[1] <= p[2])
               IN  [x \in 1..Len(q) |-> Sorted(Hits(m, q[x][1], q[x][2]))]

Rejects(o) == o.op \in {"put", "add"} /\ o.lo > o.hi

\* Fewest entries of a height-balanced (AVL) tree of height h.
RECURSIVE MinNodes(_)
MinNodes(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinNodes(h-1) + MinNodes(h-2)
MinNodesTab == [h \in 0..26 |-> MinNodes(h)]
Balanced(n, h) == h \in 0..26 /\ MinNodesTab[h] <= n /\ n <= 2^h - 1
AllHeights(n) == {<<x, h>> \in (0..n) \X (0..8) : Balanced(x, h)}

Accept(s, o) ==
  IF Rejects(o) THEN Panics(o) ELSE
  /\ Returns(o)
  /\ CASE o.op \in {"put", "add", "remove", "get"} -> o.r = Found(s[o.i], o.lo)
       [] o.op = "size"     -> o.r = <<Cardinality(DOMAIN s[o.i])>>
       [] o.op = "each"     -> IsListing(s[o.i], DOMAIN s[o.i], o.r)
       [] o.op = "overlaps" -> IsListing(s[o.i], Hits(s[o.i], o.lo, o.hi), o.r)
       [] o.op = "ovall"    -> o.r = OvAll(s[o.i], o.n)
       [] o.op = "height"   -> Balanced(o.r[1], o.r[2])
       [] OTHER -> TRUE

Obs(s, i, n) ==
  LET m == s[i] IN
  <<[op |-> "each", i |-> i, p |-> 0, r |-> SortedEntries(m, DOMAIN m)],
    [op |-> "size", i |-> i, p |-> 0, r |-> <<Cardinality(DOMAIN m)>>]>>
  \o [x \in 1..(n+1) |-> [op |-> "get", i |-> i, lo |-> x-1, p |-> 0, r |-> Found(m, x-1)]]

ObsOverlaps(s, i, n) ==
  LET m == s[i] IN
  <<[op |-> "ovall", i |-> i, n |-> n, p |-> 0, r |-> OvAll(m, n)],
    [op |-> "overlaps", i |-> i, lo |-> 0, hi |-> n+1, p |-> 0, r |-> SortedEntries(m, Hits(m, 0, n+1))],
    [op |-> "each", i |-> i, p |-> 0, r |-> SortedEntries(m, DOMAIN m)]>>
=============================================================================
