------------------------------- MODULE MCBig --------------------------------
(***************************************************************************)
(* The contract in closed form (BigModel over Runs) side by side with the  *)
(* plain contents, for every state of small bounds: Agree says that runs   *)
(* and plain contents, and every answer computed from either, are the same.*)
(* With G > 1 every abstract entry is a block of G entries and the plain   *)
(* contents are left out; those behaviours drive the real code at scale.   *)
(*   T: "map", "set", "seq", "lru";  N: entries (blocks);  Ops: operations *)
(*   of the kind of container under test;  Vs: values that may be put.     *)
(***************************************************************************)
EXTENDS BigModel, Json
CONSTANTS T, N, G, NI, Ops, Caps, Shifts
VARIABLES s, m, path

Plain == G = 1

\* ---- plain contents: map: function; seq: sequence; lru: sequence of <<k, v>>, least recent first
RECURSIVE ExpandSeq(_)
ExpandSeq(R) == IF R = <<>> THEN <<>> ELSE [x \in 1..RLen(R[1]) |-> R[1][1] + x - 1 + R[1][3]] \o ExpandSeq(Tail(R))
RECURSIVE ExpandPairs(_)
ExpandPairs(R) == IF R = <<>> THEN <<>> ELSE [x \in 1..RLen(R[1]) |-> <<R[1][1] + x - 1, R[1][1] + x - 1 + R[1][3]>>] \o ExpandPairs(Tail(R))
FnOf(P) == [k \in {P[x][1] : x \in 1..Len(P)} |-> LET x == CHOOSE x \in 1..Len(P) : P[x][1] = k IN P[x][2]]
ExpandFn(R) == FnOf(ExpandPairs(R))
Expand(R) == IF T \in {"map", "set"} THEN ExpandFn(R) ELSE IF T = "seq" THEN ExpandSeq(R) ELSE ExpandPairs(R)

Dom(f, P(_)) == [k \in {k \in DOMAIN f : P(k)} |-> f[k]]
Rg(o) == o.k .. (o.k + o.n - 1)
Vg(o) == o.v .. (o.v + o.n - 1)
NewPairs(o) == [k \in Rg(o) |-> o.v + k - o.k]
\* One put after the other; <<contents, dropped>>.
RECURSIVE PutOne(_, _, _, _, _), GetOne(_, _, _)
PutOne(q, c, o, x, out) ==
  IF x = o.n THEN <<q, out>>
  ELSE LET k == o.k + x e == <<k, o.v + x>>
           held == \E y \in 1..Len(q) : q[y][1] = k
           q1 == SelectSeq(q, LAMBDA y : y[1] # k)
       IN IF held THEN PutOne(Append(q1, e), c, o, x + 1, out)
          ELSE IF c = 0 THEN PutOne(q, c, o, x + 1, out)
          ELSE IF Len(q) = c THEN PutOne(Append(Tail(q), e), c, o, x + 1, Append(out, q[1]))
          ELSE PutOne(Append(q, e), c, o, x + 1, out)
GetOne(q, k, hi) ==
  IF k > hi THEN q
  ELSE LET h == SelectSeq(q, LAMBDA y : y[1] = k) IN GetOne(SelectSeq(q, LAMBDA y : y[1] # k) \o h, k + 1, hi)

PlainAfter(o) ==
  LET x == m[o.i] c == s[o.i].c IN
  CASE o.op = "fill"  -> NewPairs(o) @@ x
    [] o.op = "drain" -> Dom(x, LAMBDA k : k \notin Rg(o))
    [] o.op = "bfill" -> NewPairs(o) @@ Dom(x, LAMBDA k : x[k] \notin Vg(o))
    [] o.op = "bdrain" -> Dom(x, LAMBDA k : x[k] \notin Vg(o))
    [] o.op = "clear" -> IF T = "seq" THEN <<>> ELSE EmptyFn
    [] o.op = "popmin" -> Dom(x, LAMBDA k : Cardinality({y \in DOMAIN x : y < k}) >= o.n)
    [] o.op = "union" -> [k \in DOMAIN x \cup DOMAIN m[o.a] |-> k]
    [] o.op = "inter" -> [k \in DOMAIN x \cap DOMAIN m[o.a] |-> k]
    [] o.op = "diff"  -> [k \in DOMAIN x \ DOMAIN m[o.a] |-> k]
    [] o.op = "sym"   -> [k \in (DOMAIN x \ DOMAIN m[o.a]) \cup (DOMAIN m[o.a] \ DOMAIN x) |-> k]
    [] o.op = "back"  -> x \o [y \in 1..o.n |-> o.v + y - 1]
    [] o.op = "front" -> [y \in 1..o.n |-> o.v + y - 1] \o x
    [] o.op = "popf"  -> SubSeq(x, o.n + 1, Len(x))
    [] o.op = "popb"  -> SubSeq(x, 1, Len(x) - o.n)
    [] o.op \in {"ins", "insit"} -> SubSeq(x, 1, o.pos) \o [y \in 1..o.n |-> o.v + y - 1] \o SubSeq(x, o.pos + 1, Len(x))
    [] o.op \in {"del", "delit"} -> SubSeq(x, 1, o.pos) \o SubSeq(x, o.pos + o.n + 1, Len(x))
    [] o.op = "cutl"  -> SubSeq(x, 1, o.pos)
    [] o.op = "cutr"  -> SubSeq(x, o.pos + 1, Len(x))
    [] o.op = "cat"   -> x \o m[o.a]
    [] o.op \in {"putn", "puto"} -> PutOne(x, c, o, 0, <<>>)[1]
    [] o.op = "getn"  -> GetOne(x, o.k, o.k + o.n - 1)
    [] o.op = "rmn"   -> SelectSeq(x, LAMBDA y : y[1] \notin Rg(o))
    [] o.op = "resize" -> SubSeq(x, MaxI(0, Len(x) - o.n) + 1, Len(x))
    [] OTHER -> x

\* Answers from the plain contents, as expanded runs.
SortedPairs(f) == LET ks == Sorted(DOMAIN f) IN [x \in 1..Len(ks) |-> <<ks[x], f[ks[x]]>>]
PlainAnswer(o) ==
  LET x == m[o.i] c == s[o.i].c IN
  CASE o.op = "popmin" -> SubSeq(SortedPairs(x), 1, MinI(o.n, Len(SortedPairs(x))))
    [] o.op = "popf"   -> SubSeq(x, 1, MinI(o.n, Len(x)))
    [] o.op = "popb"   -> SubSeq(x, MaxI(0, Len(x) - o.n) + 1, Len(x))
    [] o.op = "putn"   -> PutOne(x, c, o, 0, <<>>)[2]
    [] o.op = "resize" -> SubSeq(x, 1, MaxI(0, Len(x) - o.n))
    [] o.op = "getn"   -> LET f == FnOf(x) IN SortedPairs(Dom(f, LAMBDA k : k \in Rg(o)))
    [] OTHER -> <<>>
Shown(a) == IF T = "seq" THEN ExpandSeq(a) ELSE ExpandPairs(a)
SameAnswer(o) ==
  o.op \in {"popmin", "popf", "popb", "putn", "resize", "getn"} =>
     ((o.op = "putn" => Told(s[o.i], o)) => Shown(Answer(s, o)) = PlainAnswer(o))

\* ---- steps --------------------------------------------------------------
Full(o) == o @@ [p |-> 0, r |-> Answer(s, o)]
PlainPost(o) ==
  CASE o.op = "cut"  -> (o.i :> SubSeq(m[o.i], 1, o.pos)) @@ (o.j :> SubSeq(m[o.i], o.pos + 1, Len(m[o.i]))) @@ m
    [] o.op = "join" -> (o.i :> m[o.i] \o m[o.a]) @@ (o.a :> <<>>) @@ m
    [] OTHER         -> (Dst(o) :> PlainAfter(o)) @@ m
Do(o) ==
  /\ (IF o.op = "puto" THEN "putn" ELSE o.op) \in Ops
  /\ s' = Post(s, o)
  /\ m' = IF Plain THEN PlainPost(o) ELSE m
  /\ path' = Append(path, Full(o))
  /\ Plain => Assert(SameAnswer(o), <<"answers differ", s, o>>)
  /\ Evaluated(<<s', m', path'>>)

NewOp(i, c) == [op |-> "new", i |-> i, t |-> T, c |-> c, p |-> 0, r |-> <<>>]
RECURSIVE News(_, _, _)
News(st, i, c) == IF i > NI THEN st ELSE News(Post(st, NewOp(i, c)), i + 1, c)
Init == \E c \in Caps :
  /\ s = News(S0, 1, IF T = "lru" THEN c * G ELSE c)
  /\ m = [i \in 1..NI |-> IF T \in {"map", "set"} THEN EmptyFn ELSE <<>>]
  /\ path = [i \in 1..NI |-> NewOp(i, IF T = "lru" THEN c * G ELSE c)]
  /\ Evaluated(<<s, m, path>>)

\* how: up, down or by strides
Hows == {0, 1, 3}
How(k, n, v) == (k + 2 * n + v) % 4
Ranges == {<<a, b>> \in (0..(N-1)) \X (1..N) : a + b <= N}
Sz(i) == RSize(s[i].R) \div G

MapNext(i) ==
  \E ab \in Ranges :
    LET k == ab[1] * G n == ab[2] * G IN
    \/ \E d \in Shifts : \/ Do([op |-> "fill", i |-> i, k |-> k, n |-> n, v |-> k + d * G, how |-> How(ab[1], ab[2], d)])
                         \/ Do([op |-> "bfill", i |-> i, k |-> k, n |-> n, v |-> k + d * G, how |-> How(ab[1], ab[2], d)])
                         \/ Do([op |-> "bdrain", i |-> i, n |-> n, v |-> k + d * G, how |-> How(ab[1], ab[2], d)])
    \/ Do([op |-> "drain", i |-> i, k |-> k, n |-> n, how |-> How(ab[1], ab[2], 0)])
    \/ ab[1] = 0 /\ ab[2] <= Sz(i) /\ Do([op |-> "popmin", i |-> i, n |-> n])
    \/ /\ Held(s[i].R, k, k + n - 1) = <<>>
       /\ "add" \in Ops  \* heaps: only what is not held yet
       /\ LET o == [op |-> "fill", i |-> i, k |-> k, n |-> n, v |-> k, how |-> How(ab[1], ab[2], 1)] IN
          /\ s' = Post(s, o) /\ m' = IF Plain THEN (i :> PlainAfter(o)) @@ m ELSE m
          /\ path' = Append(path, Full(o)) /\ Evaluated(<<s', m', path'>>)
    \/ ab = <<0, 1>> /\ Do([op |-> "clear", i |-> i])

SetNext(i) ==
  \/ \E ab \in Ranges :
       LET k == ab[1] * G n == ab[2] * G IN
       \/ Do([op |-> "fill", i |-> i, k |-> k, n |-> n, v |-> k, how |-> How(ab[1], ab[2], 1)])
       \/ Do([op |-> "drain", i |-> i, k |-> k, n |-> n, how |-> How(ab[1], ab[2], 1)])
  \/ \E op \in {"union", "inter", "diff"}, a \in 1..NI : Do([op |-> op, i |-> i, a |-> a])
  \/ \E op \in {"union", "inter", "diff", "sym"}, a \in 1..NI, j \in 1..NI : Do([op |-> op, i |-> i, a |-> a, j |-> j])
  \/ \E j \in 1..NI : i # j /\ Do([op |-> "dup", i |-> i, j |-> j])
  \/ Do([op |-> "clear", i |-> i])

SeqNext(i) ==
  \/ \E n \in 1..2, d \in Shifts :
       /\ Sz(i) + n <= N
       /\ LET v == d * G * 10 IN
          \/ Do([op |-> "back", i |-> i, n |-> n * G, v |-> v])
          \/ Do([op |-> "front", i |-> i, n |-> n * G, v |-> v])
          \/ \E pos \in 0..Sz(i) :
               \/ Do([op |-> "ins", i |-> i, n |-> n * G, v |-> v, pos |-> pos * G, side |-> IF pos = 0 THEN 1 ELSE 0])
               \/ Sz(i) > 0 /\ \E side \in 0..1 :
                    (IF side = 0 THEN pos > 0 ELSE pos < Sz(i))
                    /\ Do([op |-> "insit", i |-> i, n |-> n * G, v |-> v, pos |-> pos * G, side |-> side])
  \/ \E n \in 1..2 :
       /\ n <= Sz(i)
       /\ \/ Do([op |-> "popf", i |-> i, n |-> n * G])
          \/ Do([op |-> "popb", i |-> i, n |-> n * G])
          \/ \E pos \in 0..(Sz(i) - n) : Do([op |-> "del", i |-> i, n |-> n * G, pos |-> pos * G])
                                         \/ Do([op |-> "delit", i |-> i, n |-> n * G, pos |-> pos * G])
  \/ Do([op |-> "clear", i |-> i])
  \/ Do([op |-> "rebuild", i |-> i])
  \/ Do([op |-> "rebal", i |-> i])
  \/ \E j \in 1..NI : i # j /\ Do([op |-> "dup", i |-> i, j |-> j])
  \* in place: parts and wholes
  \/ \E j \in 1..NI : i # j /\ \E pos \in 0..Sz(i) : Do([op |-> "cut", i |-> i, j |-> j, pos |-> pos * G])
  \/ \E a \in 1..NI : i # a /\ Sz(i) + Sz(a) <= N /\ Do([op |-> "join", i |-> i, a |-> a])
  \* new versions
  \/ \E j \in 1..NI : "versions" \in Ops /\
       \/ \E pos \in 0..Sz(i) : Do([op |-> "cutl", i |-> i, j |-> j, pos |-> pos * G]) \/ Do([op |-> "cutr", i |-> i, j |-> j, pos |-> pos * G])
       \/ \E a \in 1..NI : Sz(i) + Sz(a) <= N /\ Do([op |-> "cat", i |-> i, j |-> j, a |-> a])

LruNext(i) ==
  \/ \E ab \in Ranges, d \in Shifts :
       LET k == ab[1] * G n == ab[2] * G IN
       \/ LET o == [op |-> "putn", i |-> i, k |-> k, n |-> n, v |-> k + d * G] IN
          Do(IF Told(s[i], o) THEN o ELSE [o EXCEPT !.op = "puto"]) \* what is dropped is not told
       \/ Do([op |-> "getn", i |-> i, k |-> k, n |-> n])
       \/ Do([op |-> "rmn", i |-> i, k |-> k, n |-> n, how |-> How(ab[1], ab[2], d)])
  \/ \E c \in Caps : Do([op |-> "resize", i |-> i, n |-> c * G])

Next == \E i \in 1..NI :
  CASE T = "map" -> MapNext(i) [] T = "set" -> SetNext(i) [] T = "seq" -> SeqNext(i) [] T = "lru" -> LruNext(i)

View == <<s, m>>

Maximal(R) == \A x \in 1..(Len(R) - 1) : R[x][2] + 1 # R[x+1][1] \/ R[x][3] # R[x+1][3]
InOrder(R) == \A x \in 1..(Len(R) - 1) : R[x][2] < R[x+1][1]
Agree == \A i \in 1..NI : LET R == s[i].R IN
  /\ \A x \in 1..Len(R) : R[x][1] <= R[x][2]
  /\ Maximal(R)
  /\ T \in {"map", "set"} => InOrder(R)
  /\ Plain =>
     LET e == Expand(R) IN
     /\ e = m[i]
     /\ T = "lru" => RSize(R) <= s[i].c
     /\ RSize(R) = IF T \in {"map", "set"} THEN Cardinality(DOMAIN e) ELSE Len(e)
     /\ T \in {"map", "set"} =>
          /\ \A k \in -1..(N + 1) : RGet(R, k) = IF k \in DOMAIN e THEN <<e[k], 1>> ELSE <<0, 0>>
          /\ \A k \in 0..N, n \in 0..N : ExpandFn(Answer(s, [op |-> "hits", i |-> i, k |-> k, n |-> n])) = Dom(e, LAMBDA x : x \in k..(k + n - 1))
          /\ \A k \in 0..N, n \in 0..N : ExpandFn(Answer(s, [op |-> "over", i |-> i, k |-> k, n |-> n]))
                                          = Dom(e, LAMBDA x : x < k + n /\ x + s[i].c > k)
          /\ {e[k] : k \in DOMAIN e} # {} => \A v \in -1..(3 * N) : ((\A k1, k2 \in DOMAIN e : e[k1] = e[k2] => k1 = k2) =>
               Answer(s, [op |-> "rev", i |-> i, v |-> v]) =
                 IF \E k \in DOMAIN e : e[k] = v THEN <<CHOOSE k \in DOMAIN e : e[k] = v, 1>> ELSE <<0, 0>>)
     /\ T = "seq" => \A a \in 0..Len(e) :
          /\ a < Len(e) => RAt(R, a) = e[a + 1]
          /\ \A b \in a..Len(e) : ExpandSeq(RSlice(R, a, b)) = SubSeq(e, a + 1, b)
  /\ T = "set" /\ Plain => \A a \in 1..NI :
       LET A == DOMAIN ExpandFn(R) C == DOMAIN ExpandFn(s[a].R)
           ans(op) == Answer(s, [op |-> op, i |-> i, a |-> a])[1] IN
       /\ ans("eq") = B(A = C) /\ ans("sub") = B(A \subseteq C) /\ ans("sup") = B(C \subseteq A)
       /\ ans("psub") = B(A \subseteq C /\ A # C) /\ ans("psup") = B(C \subseteq A /\ A # C)
       /\ ans("disj") = B(A \cap C = {})

\* What is read after each transition.
Obs(t, i) ==
  LET R == t[i].R
      one(o) == o @@ [i |-> i, p |-> 0]
      ans(o) == one(o @@ [r |-> Answer(t, o @@ [i |-> i])])
      op(n)  == ans([op |-> n])
      all(q) == SelectSeq(q, LAMBDA o : o.op \in Ops)
  IN all(<<op("size"), op("runs"), op("back-runs"), op("peekall"), op("peekf"), op("peekb"), op("min"), op("cap")>>
     \o (IF T \in {"map", "set"}
         THEN <<ans([op |-> "get", k |-> 0]), ans([op |-> "get", k |-> G]), ans([op |-> "hits", k |-> 0, n |-> N * G]),
                ans([op |-> "over", k |-> G, n |-> 1]), ans([op |-> "over", k |-> 1, n |-> G]), ans([op |-> "rev", v |-> G + 1]),
                ans([op |-> "longest", k |-> G])>>
         ELSE <<>>)
     \o (IF T = "seq" /\ RSize(R) > 0
         THEN <<ans([op |-> "at", pos |-> RSize(R) - 1]), ans([op |-> "at", pos |-> RSize(R) \div 2]),
                ans([op |-> "slice", pos |-> G - 1, n |-> RSize(R) - G + 1])>>
         ELSE <<>>)
     \o (IF T = "set" THEN <<ans([op |-> "eq", a |-> 1]), ans([op |-> "sub", a |-> 1]), ans([op |-> "sup", a |-> 1]),
                             ans([op |-> "psub", a |-> 1]), ans([op |-> "psup", a |-> 1]), ans([op |-> "disj", a |-> 1])>> ELSE <<>>))
RECURSIVE ObsAll(_, _)
ObsAll(t, i) == IF i > NI THEN <<>> ELSE Obs(t, i) \o ObsAll(t, i + 1)
Emit == PrintT(ToJson(path' \o ObsAll(s', 1)))
=============================================================================
