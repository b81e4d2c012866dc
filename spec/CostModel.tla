----------------------------- MODULE CostModel -----------------------------
(***************************************************************************)
(* CONTRACT of the work operations do.  Steps around other steps report    *)
(*   [op |-> "calls", b, qs]  how often they called the functions given to *)
(*                            the container (less; equals and hash)        *)
(*   [op |-> "mem", b, qs]    how many bytes they allocated                *)
(*   [op |-> "cpu", b, qs]    how many microseconds of processor time they *)
(*                            took                                         *)
(*   [op |-> "live", b, qs, rep]  how many bytes more than before are        *)
(*                            reachable after executing them rep times     *)
(* b is the kind of container.  The bounds are far above what any          *)
(* reasonable implementation needs and far below work in proportion to     *)
(* tens of thousands of entries.  With a field lim, the step's own bound,  *)
(* the result is whether it was kept.                                      *)
(***************************************************************************)
EXTENDS BigModel

Costs == {"calls", "mem", "cpu", "live"}
RECURSIVE Folded(_, _)
Folded(s, qs) == IF qs = <<>> THEN s ELSE Folded(Post(s, qs[1]), Tail(qs))
CPost(s, o) == IF o.op \in Costs THEN Folded(s, o.qs) ELSE Post(s, o)

\* Height of the highest height-balanced tree with n entries.
RECURSIVE HighestF(_, _)
HighestF(n, h) == IF MinNodesF[h + 1] > n THEN h ELSE HighestF(n, h + 1)
Highest(n) == HighestF(n, 0)
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)

\* Entries, elements or queries a step is about, and those it returns.
About(q) == IF q.op \in {"get", "at", "cutl", "cutr", "cat", "dup", "clear", "size", "longest", "rev", "over"} THEN 1 ELSE q.n
Returned(s, q) == IF q.op \in {"over", "prefix"} THEN RSize(Answer(s, q)) ELSE 0

CallBound(s, b, q) ==
  LET n == About(q) m == RSize(Src(s, q)) + n IN
  CASE b = "tree"  -> 40 * n * (Highest(m) + 2)
    [] b = "btree" -> 3000 * n                   \* nodes of 64 entries, few levels; the keys ever put count
    [] b = "heap"  -> 8 * n * (Lg(m) + 2)
    [] b = "hash"  -> IF q.op = "dup" THEN 0 ELSE 60 * n
MemBound(s, b, q) ==
  CASE b = "hash" -> 16384                       \* of a copy
    [] OTHER      -> 131072 + 64 * About(q)
CpuBound(s, b, q) == 50 * (About(q) + Returned(s, q))

RECURSIVE Sum(_, _, _, _)
Sum(s, o, qs, acc) ==
  IF qs = <<>> THEN acc
  ELSE Sum(Post(s, qs[1]), o, Tail(qs),
           acc + (CASE o.op = "calls" -> CallBound(s, o.b, qs[1]) [] o.op = "mem" -> MemBound(s, o.b, qs[1]) [] o.op = "cpu" -> CpuBound(s, o.b, qs[1])))
\* A hash table may move its entries now and then, but not again and again.
Changes(qs) == \E x \in 1..Len(qs) : qs[x].op \in {"fill", "drain"}
Start(s, o) == CASE o.op = "cpu" -> 20000
                 [] o.op = "calls" /\ o.b = "hash" /\ Changes(o.qs) -> 20 * (RSize(Src(s, o.qs[1])) + 1)
                 [] OTHER -> 0
Bound(s, o) == Sum(s, o, o.qs, Start(s, o))

\* What stays reachable is a matter of the entries held, not of those that
\* were held once.  Slices and tables may have room for the most they ever held.
RECURSIVE Peak(_, _, _)
Peak(s, qs, m) == LET n == MaxI(m, TotalOf(s, DOMAIN s)) IN IF qs = <<>> THEN n ELSE Peak(Post(s, qs[1]), Tail(qs), n)
LiveBound(s, o) == 65536 + 256 * Peak(s, o.qs, 0)
\* Repeated steps have to leave the contents as they were.
Repeatable(s, o) == o.rep = 1 \/ Folded(s, o.qs) = s

CAccept(s, o) ==
  CASE o.op = "live"  -> Assert(Repeatable(s, o), "steps that cannot be repeated") /\ Returns(o) /\ o.r[1] <= LiveBound(s, o)
    [] o.op \in Costs -> Returns(o) /\ o.r[1] <= Bound(s, o)
    [] OTHER          -> Accept(s, o)
=============================================================================
