------------------------------ MODULE MCCache -------------------------------
(***************************************************************************)
(* Every cache of capacity 0..C over the keys 1..N that the design         *)
(* reaches, with every kind of callback of Cbs.  Values: putting a key     *)
(* toggles its value between 10k and 10k+1.                                *)
(***************************************************************************)
EXTENDS Cache, CacheModel, Json
CONSTANTS N, C, Cbs, Window
VARIABLES d, s, ok, path

Do(o, x) ==
  /\ d' = x[1]
  /\ s' = Post(s, o)
  /\ ok' = (Accept(s, o) /\ o.r = x[2])
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Init == \E n \in 0..C :
          LET o == [op |-> "new", i |-> 1, n |-> n, p |-> 0, r |-> <<>>] IN
          /\ d = D0(n)
          /\ s = Post(S0, o)
          /\ ok = TRUE
          /\ path = <<o>>
          /\ Evaluated(<<d, s, path>>)

NextVal(k) == IF k \in d.tab /\ d.val[k] = 10 * k THEN 10 * k + 1 ELSE 10 * k
R(o) == [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN Effect(s[1], o)[2] ELSE o[f]]

Next == \/ \E k \in 1..N :
             \/ Do(R([op |-> "get", i |-> 1, k |-> k]), <<DGet(d, k), DRes(d, k)>>)
             \/ LET v == NextVal(k) IN Do(R([op |-> "put", i |-> 1, k |-> k, v |-> v]), DPut(d, k, v))
             \/ Do(R([op |-> "remove", i |-> 1, k |-> k]), <<DRemove(d, k), <<>>>>)
        \/ \E n \in 0..C : Do(R([op |-> "resize", i |-> 1, n |-> n]), DResize(d, n))
        \/ \E cb \in Cbs : \E k \in IF cb \in {"get", "rm"} THEN 1..N ELSE {0} :
             <<cb, k>> # <<d.cb, d.ck>> /\
             Do(R([op |-> "setcb", i |-> 1, cb |-> cb, ck |-> k]), <<[d EXCEPT !.cb = cb, !.ck = k], <<>>>>)

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<DList(d), d.cap, d.cb, d.ck, ok, Recent>>

Refines ==
  /\ ok
  /\ CacheInv(s)
  /\ DList(d) = s[1].e
  /\ d.tab = {x[1] : x \in RangeOf(s[1].e)}
  /\ Bwd(d.m, 1) = [x \in 1..Len(s[1].e) |-> s[1].e[Len(s[1].e) + 1 - x][1]]

\* Look at everything and look every key up; or look at everything and shrink
\* with a recording callback: the eviction order is the order of use.
X(t, o) == [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN Effect(t[1], o)[2] ELSE o[f]]
Look(t) == <<X(t, [op |-> "each", i |-> 1]), X(t, [op |-> "size", i |-> 1]), X(t, [op |-> "cap", i |-> 1])>>
RECURSIVE Gets(_, _)
Gets(t, k) == IF k > N + 1 THEN <<X(t, [op |-> "each", i |-> 1])>>
              ELSE LET o == X(t, [op |-> "get", i |-> 1, k |-> k]) IN <<o>> \o Gets(Post(t, o), k + 1)
RECURSIVE Shrink(_, _)
Shrink(t, n) == LET o == X(t, [op |-> "resize", i |-> 1, n |-> n]) IN
                <<o>> \o Look(Post(t, o)) \o (IF n = 0 THEN <<>> ELSE Shrink(Post(t, o), MaxI(0, n - 2)))
Log == [op |-> "setcb", i |-> 1, cb |-> "log", ck |-> 0, p |-> 0, r |-> <<>>]
Emit == /\ PrintT(ToJson(path' \o Look(s') \o Gets(s', 1)))
        /\ PrintT(ToJson(path' \o Look(s') \o <<Log>> \o Shrink(Post(s', Log), MaxI(0, Len(s'[1].e) - 1))))
=============================================================================
