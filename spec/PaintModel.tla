----------------------------- MODULE PaintModel -----------------------------
(***************************************************************************)
(* CONTRACT of 2-D arrays in closed form, for shapes whose cells cannot be *)
(* listed one by one.  The cells are bands <<y1, y2, row>> of equal rows,  *)
(* from top to bottom; a row is runs <<x1, x2, v>> of equal values; both   *)
(* are maximal, so that equal cells have equal bands.  Every write is a    *)
(* rectangle painted in one value.                                         *)
(***************************************************************************)
EXTENDS Runs
S0 == EmptyFn

Whole(w, h, v) == IF h = 0 THEN <<>> ELSE <<<<0, h - 1, IF w = 0 THEN <<>> ELSE <<<<0, w - 1, v>>>>>>>>
RowPut(R, x1, x2, v) == Canon(Append(Cut(R, x1, x2), <<x1, x2, v>>))
Band(b, lo, hi) == LET a == MaxI(b[1], lo) z == MinI(b[2], hi) IN IF a <= z THEN <<<<a, z, b[3]>>>> ELSE <<>>
RECURSIVE Merge(_, _), PaintTo(_, _, _, _, _, _)
Merge(done, Bs) ==
  IF Bs = <<>> THEN done
  ELSE LET b == Bs[1] z == Len(done) IN
       IF z > 0 /\ done[z][3] = b[3] THEN Merge([done EXCEPT ![z] = <<@[1], b[2], b[3]>>], Tail(Bs))
       ELSE Merge(Append(done, b), Tail(Bs))
PaintTo(Bs, x1, y1, x2, y2, v) ==
  IF Bs = <<>> THEN <<>>
  ELSE LET b == Bs[1] in == Band(b, y1, y2) IN
       Band(b, b[1], y1 - 1)
       \o (IF in = <<>> THEN <<>> ELSE <<<<in[1][1], in[1][2], RowPut(b[3], x1, x2, v)>>>>)
       \o Band(b, y2 + 1, b[2])
       \o PaintTo(Tail(Bs), x1, y1, x2, y2, v)
Paint(Bs, x1, y1, x2, y2, v) == Merge(<<>>, PaintTo(Bs, MinI(x1, x2), MinI(y1, y2), MaxI(x1, x2), MaxI(y1, y2), v))
RowAt(Bs, y) == LET I == {x \in 1..Len(Bs) : Bs[x][1] <= y /\ y <= Bs[x][2]} IN Bs[CHOOSE x \in I : TRUE][3]

XIn(a, x) == x >= 0 /\ x < a.w
YIn(a, y) == y >= 0 /\ y < a.h
Inside(a, o) ==
  CASE o.op = "paint" -> XIn(a, o.x1) /\ XIn(a, o.x2) /\ YIn(a, o.y1) /\ YIn(a, o.y2)
    [] o.op \in {"set", "get"} -> XIn(a, o.x) /\ YIn(a, o.y)
    [] o.op \in {"span", "wspan"} -> XIn(a, o.x1) /\ XIn(a, o.x2) /\ YIn(a, o.y)
    [] o.op \in {"row", "wrow"} -> YIn(a, o.y)
    [] OTHER -> TRUE

After(a, o) ==
  IF ~Inside(a, o) THEN a
  ELSE CASE o.op = "paint" -> [a EXCEPT !.cells = Paint(@, o.x1, o.y1, o.x2, o.y2, o.v)]
         [] o.op = "set"   -> [a EXCEPT !.cells = Paint(@, o.x, o.y, o.x, o.y, o.v)]
         [] o.op = "wspan" -> [a EXCEPT !.cells = Paint(@, o.x1, o.y, o.x2, o.y, o.v)]
         [] o.op = "wrow"  -> IF a.w = 0 THEN a ELSE [a EXCEPT !.cells = Paint(@, 0, o.y, a.w - 1, o.y, o.v)]
         [] OTHER -> a

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> [w |-> o.w, h |-> o.h, cells |-> Whole(o.w, o.h, o.v)]) @@ s
    \* an array of jagged rows: the first o.n rows have o.m values v, the rest
    \* of the array is zero
    [] o.op = "jag"   -> LET a == [w |-> o.w, h |-> o.h, cells |-> Whole(o.w, o.h, 0)] n == MinI(o.n, o.h) m == MinI(o.m, o.w)
                         IN (o.i :> IF n = 0 \/ m = 0 THEN a ELSE [a EXCEPT !.cells = Paint(@, 0, 0, m - 1, n - 1, o.v)]) @@ s
    [] o.op = "copy"  -> (o.j :> s[o.i]) @@ s
    [] OTHER -> (o.i :> After(s[o.i], o)) @@ s

Clip(R, lo, hi) == Held(R, lo, hi)
Answer(s, o) ==
  LET a == s[o.i] IN
  CASE ~Inside(a, o)   -> <<>>
    [] o.op = "get"    -> <<Held(RowAt(a.cells, o.y), o.x, o.x)[1][3]>>
    [] o.op = "row"    -> RowAt(a.cells, o.y)
    [] o.op = "span"   -> Clip(RowAt(a.cells, o.y), MinI(o.x1, o.x2), MaxI(o.x1, o.x2))
    [] o.op \in {"all", "rows", "str"} -> a.cells
    [] o.op = "dims"   -> <<a.w, a.h>>
    [] OTHER -> <<>>

POf(s, o) == IF o.op \notin {"reset", "new", "jag", "copy"} /\ ~Inside(s[o.i], o) THEN 1 ELSE 0
Creates(o) == o.op \in {"reset", "new", "jag", "copy"}
Accept(s, o) == o.p = POf(s, o) /\ (o.p = 0 /\ ~Creates(o) => o.r = Answer(s, o))
=============================================================================
