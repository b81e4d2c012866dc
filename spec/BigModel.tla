------------------------------ MODULE BigModel ------------------------------
(***************************************************************************)
(* CONTRACT of all containers at sizes where entries cannot be listed one  *)
(* by one: operations act on ranges of consecutive integers, contents are  *)
(* sequences of runs (module Runs), and what the real code iterates over   *)
(* is compared run by run.                                                 *)
(*                                                                         *)
(* An instance is [t, R, c]: what it is, its contents and a parameter.     *)
(*  "map"  key -> value, compared in key order: maps, sets (value = key),  *)
(*         interval trees (c: the width of all intervals), tries (keys of  *)
(*         three bytes in big-endian order), bidirectional maps, heaps,    *)
(*         one key of a multimap                                           *)
(*  "seq"  a sequence of integers: queue, stack (bottom first), lists,     *)
(*         ropes                                                           *)
(*  "lru"  a cache: entries, least recently used first; c: capacity        *)
(***************************************************************************)
EXTENDS Runs

S0 == EmptyFn
MkI(t, c) == [t |-> t, R |-> <<>>, c |-> c]
Src(s, o) == IF "i" \in DOMAIN o /\ o.i \in DOMAIN s THEN s[o.i].R ELSE <<>>
\* Results go to instance j if the step has one (new versions), else to i.
Dst(o) == IF "j" \in DOMAIN o THEN o.j ELSE o.i

\* Fewest entries of a height-balanced tree of height h.
MinNodesF[h \in -1..34] == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinNodesF[h-1] + MinNodesF[h-2]
BalancedB(n, h) == h \in 0..34 /\ MinNodesF[h] <= n /\ n <= 2^MinI(h, 30) - 1

More(o) == "m" \in DOMAIN o /\ o.m > 0
\* The contents of instance i after step o.
After(s, o) ==
  LET x == s[o.i] R == x.R IN
  CASE o.op = "fill"   -> RPut(R, o.k, o.n, o.v)
    [] o.op = "of"     -> RPut(<<>>, o.k, o.n, o.v)    \* made from initial values
    [] o.op = "drain"  -> RDrop(R, o.k, o.n)
    \* bidirectional map: pairs sharing a key or a value are displaced
    [] o.op = "bfill"  -> RPut(CutVal(R, o.v, o.v + o.n - 1), o.k, o.n, o.v)
    [] o.op = "bdrain" -> Canon(CutVal(R, o.v, o.v + o.n - 1))
    [] o.op = "clear"  -> <<>>
    [] o.op = "popmin" -> Norm(RSkip(R, o.n))
    \* sets
    [] o.op = "union"  -> RUnion(R, s[o.a].R)
    [] o.op = "inter"  -> RInter(R, s[o.a].R)
    [] o.op = "diff"   -> RDiff(R, s[o.a].R)
    \* m: that many more operands equal to the first
    [] o.op = "sym" /\ More(o) -> RDiff(R, s[o.a].R)
    [] o.op = "sym"    -> RUnion(RDiff(R, s[o.a].R), RDiff(s[o.a].R, R))
    \* sequences; elements v, v+1, ...
    [] o.op = "back"   -> Norm(Append(R, <<o.v, o.v + o.n - 1, 0>>))
    [] o.op = "front"  -> Norm(<<<<o.v, o.v + o.n - 1, 0>>>> \o R)
    [] o.op = "popf"   -> Norm(RSkip(R, o.n))
    [] o.op = "popb"   -> Norm(RTake(R, RSize(R) - o.n))
    [] o.op \in {"ins", "insit"} -> Norm(RTake(R, o.pos) \o <<<<o.v, o.v + o.n - 1, 0>>>> \o RSkip(R, o.pos))
    [] o.op \in {"del", "delit"} -> Norm(RTake(R, o.pos) \o RSkip(R, o.pos + o.n))
    [] o.op = "cat"    -> Norm(R \o s[o.a].R)
    [] o.op = "dup"    -> R
    [] o.op = "cutl"   -> Norm(RTake(R, o.pos))
    [] o.op = "cutr"   -> Norm(RSkip(R, o.pos))
    \* caches
    [] o.op \in {"putn", "puto"} -> LET A == Norm(Append(Cut(R, o.k, o.k + o.n - 1), <<o.k, o.k + o.n - 1, o.v - o.k>>))
                          IN Norm(RSkip(A, RSize(A) - x.c))
    [] o.op = "getn"   -> Norm(Cut(R, o.k, o.k + o.n - 1) \o ByKey(Held(R, o.k, o.k + o.n - 1)))
    [] o.op = "rmn"    -> Norm(Cut(R, o.k, o.k + o.n - 1))
    [] o.op = "resize" -> Norm(RSkip(R, RSize(R) - o.n))
    [] OTHER -> R

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "conf"  -> s
    [] o.op = "new"   -> (o.i :> MkI(o.t, o.c)) @@ s
    [] o.op = "mclear" -> [i \in DOMAIN s |-> [s[i] EXCEPT !.R = <<>>]]
    \* splitting in place: both parts are instances of their own afterwards
    [] o.op = "cut"   -> (o.i :> [s[o.i] EXCEPT !.R = After(s, [o EXCEPT !.op = "cutl"])]) @@
                         (o.j :> [s[o.i] EXCEPT !.R = After(s, [o EXCEPT !.op = "cutr"])]) @@ s
    \* joining in place uses up the second part
    [] o.op = "join"  -> (o.i :> [s[o.i] EXCEPT !.R = After(s, [o EXCEPT !.op = "cat"])]) @@ (o.a :> [s[o.a] EXCEPT !.R = <<>>]) @@ s
    [] o.op = "resize" -> (o.i :> [s[o.i] EXCEPT !.R = After(s, o), !.c = o.n]) @@ s
    [] o.i \in DOMAIN s -> (Dst(o) :> [s[o.i] EXCEPT !.R = After(s, o)]) @@ s
    [] OTHER -> s

RECURSIVE UnionOf(_, _), TotalOf(_, _)
UnionOf(s, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE
                 IN RUnion(UnionOf(s, I \ {i}), [x \in 1..Len(s[i].R) |-> <<s[i].R[x][1], s[i].R[x][2], 0>>])
TotalOf(s, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN RSize(s[i].R) + TotalOf(s, I \ {i})

\* What a cache drops, least recently used first; not told for puts of keys
\* that were held.
Dropped(x, o) ==
  IF o.op = "resize" THEN Norm(RTake(x.R, RSize(x.R) - o.n))
  ELSE LET A == Norm(Append(x.R, <<o.k, o.k + o.n - 1, o.v - o.k>>)) IN
       IF x.c = 0 THEN <<>> ELSE Norm(RTake(A, RSize(A) - x.c))
Told(x, o) == o.op = "resize" \/ Held(x.R, o.k, o.k + o.n - 1) = <<>>

Answer(s, o) ==
  LET R == Src(s, o) IN
  CASE o.op = "get"   -> RGet(R, o.k)
    [] o.op \in {"has", "longest"} -> <<B(RHas(R, o.k))>>
    [] o.op = "rev"   -> LET h == SelectSeq(R, LAMBDA r : r[1] <= o.v - r[3] /\ o.v - r[3] <= r[2])
                         IN IF h = <<>> THEN <<0, 0>> ELSE <<o.v - h[1][3], 1>>
    [] o.op \in {"size", "len"} -> <<RSize(R)>>
    [] o.op \in {"runs", "back-runs", "peekall"} -> R
    \* lookups of all keys of a range: the entries found
    [] o.op \in {"hits", "prefix"} -> Norm(Held(R, o.k, o.k + o.n - 1))
    [] o.op = "longestn" -> LET h == Norm(Held(R, o.k, o.k + o.n - 1)) IN [x \in 1..Len(h) |-> <<h[x][1], h[x][2], 0>>]
    \* intervals [k, k+c) that overlap [k, k+n)
    [] o.op \in {"over", "overn"} -> Norm(Held(R, o.k - s[o.i].c + 1, o.k + o.n - 1))
    [] o.op = "popmin" -> Norm(RTake(R, o.n))
    [] o.op = "min"   -> IF R = <<>> THEN <<0, 0>> ELSE <<R[1][1], 1>>
    [] o.op = "popf"  -> Norm(RTake(R, o.n))
    \* the iterator after insertions is at the last one inserted, after
    \* removals at the element that followed
    [] o.op = "insit" -> <<IF o.side = 0 THEN o.v + o.n - 1 ELSE o.v, 1>>
    [] o.op = "delit" -> IF o.pos + o.n < RSize(R) THEN <<RAt(R, o.pos + o.n), 1>> ELSE <<0, 0>>
    [] o.op = "popb"  -> Norm(RSkip(R, RSize(R) - o.n))
    [] o.op = "peekf" -> IF R = <<>> THEN <<0, 0>> ELSE <<RAt(R, 0), 1>>
    [] o.op = "peekb" -> IF R = <<>> THEN <<0, 0>> ELSE <<RAt(R, RSize(R) - 1), 1>>
    [] o.op = "at"    -> <<RAt(R, o.pos)>>
    [] o.op = "slice" -> Norm(RSlice(R, o.pos, o.pos + o.n))
    [] o.op = "eq"    -> <<B(R = s[o.a].R)>>
    [] o.op = "sub"   -> <<B(RDiff(R, s[o.a].R) = <<>>)>>
    [] o.op = "sup"   -> <<B(RDiff(s[o.a].R, R) = <<>>)>>
    [] o.op = "psub"  -> <<B(R # s[o.a].R /\ RDiff(R, s[o.a].R) = <<>>)>>
    [] o.op = "psup"  -> <<B(R # s[o.a].R /\ RDiff(s[o.a].R, R) = <<>>)>>
    [] o.op = "disj"  -> <<B(RInter(R, s[o.a].R) = <<>>)>>
    [] o.op = "total" -> <<TotalOf(s, DOMAIN s)>>
    \* number of multimap keys: the instances are the keys or the values
    [] o.op = "dim"   -> <<IF o.keys = 1 THEN Cardinality({i \in DOMAIN s : s[i].R # <<>>}) ELSE RSize(UnionOf(s, DOMAIN s))>>
    [] o.op = "getn"  -> Norm(ByKey(Held(R, o.k, o.k + o.n - 1)))
    [] o.op = "cap"   -> <<s[o.i].c>>
    [] o.op \in {"putn", "resize"} -> Dropped(s[o.i], o)
    [] OTHER -> <<>>

Accept(s, o) ==
  /\ Returns(o)
  /\ CASE o.op \in {"putn", "resize"} -> Told(s[o.i], o) => o.r = Answer(s, o)
       [] o.op = "height" -> BalancedB(RSize(Src(s, o)), o.r[1])
       \* lookups of a height-balanced tree take a bounded number of calls of
       \* less per level
       [] o.op = "cost" -> \E h \in 0..34 : BalancedB(RSize(Src(s, o)), h) /\ o.r[1] <= 6 * (h + 1)
       [] OTHER -> o.r = Answer(s, o)
=============================================================================
