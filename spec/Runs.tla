-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Large contents in closed form.  A run <<lo, hi, d>> stands for the      *)
(* entries k |-> k+d, lo <= k <= hi; contents are sequences of runs, so    *)
(* that the contract can follow containers of hundreds of thousands of     *)
(* entries.  Two readings share the operators:                             *)
(*   map reading:      runs sorted by key, disjoint, maximal (Canon);      *)
(*   sequence reading: the entries one after another, maximal (Norm).      *)
(* MCBig checks both against the plain contents for small bounds.          *)
(***************************************************************************)
EXTENDS Common

RLen(r) == r[2] - r[1] + 1
RECURSIVE RSize(_)
RSize(R) == IF R = <<>> THEN 0 ELSE RLen(R[1]) + RSize(Tail(R))

\* The part of a run inside and outside of lo..hi.
Part(r, lo, hi) == LET a == MaxI(r[1], lo) b == MinI(r[2], hi) IN IF a <= b THEN <<<<a, b, r[3]>>>> ELSE <<>>
Outer(r, lo, hi) == IF hi < lo THEN <<r>> ELSE Part(r, r[1], lo - 1) \o Part(r, hi + 1, r[2])

RECURSIVE Cut(_, _, _), Held(_, _, _), CutVal(_, _, _)
Cut(R, lo, hi)  == IF R = <<>> THEN <<>> ELSE Outer(R[1], lo, hi) \o Cut(Tail(R), lo, hi)
Held(R, lo, hi) == IF R = <<>> THEN <<>> ELSE Part(R[1], lo, hi) \o Held(Tail(R), lo, hi)
\* Without the entries whose value is in lo..hi.
CutVal(R, lo, hi) == IF R = <<>> THEN <<>> ELSE Outer(R[1], lo - R[1][3], hi - R[1][3]) \o CutVal(Tail(R), lo, hi)

\* Neighbouring runs that continue each other become one; empty ones vanish.
RECURSIVE NormTo(_, _)
NormTo(done, R) ==
  IF R = <<>> THEN done
  ELSE LET r == R[1] z == Len(done) IN
       IF r[2] < r[1] THEN NormTo(done, Tail(R))
       ELSE IF z > 0 /\ done[z][2] + 1 = r[1] /\ done[z][3] = r[3]
            THEN NormTo([done EXCEPT ![z] = <<@[1], r[2], r[3]>>], Tail(R))
            ELSE NormTo(Append(done, r), Tail(R))
Norm(R) == NormTo(<<>>, R)
ByKey(R) == SortSeq(R, LAMBDA a, b : a[1] < b[1])
Canon(R) == Norm(ByKey(R))

\* ---- map reading ----------------------------------------------------------
RPut(R, k, n, v)  == IF n <= 0 THEN R ELSE Canon(Append(Cut(R, k, k + n - 1), <<k, k + n - 1, v - k>>))
RDrop(R, k, n)    == Canon(Cut(R, k, k + n - 1))
RGet(R, k) == LET h == Held(R, k, k) IN IF h = <<>> THEN <<0, 0>> ELSE <<k + h[1][3], 1>>
RHas(R, k) == Held(R, k, k) # <<>>

\* Sets: runs with d = 0.
RECURSIVE RUnion(_, _), RDiff(_, _)
RUnion(R, S) == IF S = <<>> THEN R ELSE RUnion(RPut(R, S[1][1], RLen(S[1]), S[1][1]), Tail(S))
RDiff(R, S)  == IF S = <<>> THEN R ELSE RDiff(RDrop(R, S[1][1], RLen(S[1])), Tail(S))
RInter(R, S) == RDiff(R, RDiff(R, S))

\* ---- sequence reading -----------------------------------------------------
RECURSIVE RTake(_, _), RSkip(_, _)
RTake(R, n) == IF n <= 0 \/ R = <<>> THEN <<>>
               ELSE LET r == R[1] IN IF RLen(r) <= n THEN <<r>> \o RTake(Tail(R), n - RLen(r)) ELSE <<<<r[1], r[1] + n - 1, r[3]>>>>
RSkip(R, n) == IF n <= 0 \/ R = <<>> THEN R
               ELSE LET r == R[1] IN IF RLen(r) <= n THEN RSkip(Tail(R), n - RLen(r)) ELSE <<<<r[1] + n, r[2], r[3]>>>> \o Tail(R)
RSlice(R, a, b) == RTake(RSkip(R, a), b - a)
RAt(R, p) == LET r == RSkip(R, p)[1] IN r[1] + r[3]
=============================================================================
