----------------------------- MODULE ArrayModel -----------------------------
(***************************************************************************)
(* CONTRACT of package array2d.  Instance i has a width w, a height h, its *)
(* cells c (a sequence of h rows of w integers) and the region (x1, x2, y) *)
(* of the last row slice taken from it and kept (x2 < x1: none).           *)
(* Coordinates are zero-based; those out of range make every access panic. *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Rows(w, h, f(_, _)) == [y \in 1..h |-> [x \in 1..w |-> f(x - 1, y - 1)]]
Arr(w, h, c) == [w |-> w, h |-> h, c |-> c, held |-> <<0, -1, 0>>]
At(a, x, y) == a.c[y + 1][x + 1]
InX(a, x) == x >= 0 /\ x < a.w
InY(a, y) == y >= 0 /\ y < a.h
\* The value that jagged rows give to a cell; 0 where they give none.
Jag(rows, x, y) == IF y < Len(rows) /\ x < Len(rows[y + 1]) THEN rows[y + 1][x + 1] ELSE 0

InRange(a, o) ==
  CASE o.op \in {"get", "set"}   -> InX(a, o.x) /\ InY(a, o.y)
    [] o.op = "fill"             -> InX(a, o.x1) /\ InX(a, o.x2) /\ InY(a, o.y1) /\ InY(a, o.y2)
    [] o.op \in {"row", "wrow", "keeprow"}    -> InY(a, o.y)
    [] o.op \in {"span", "wspan", "keepspan"} -> InX(a, o.x1) /\ InX(a, o.x2) /\ InY(a, o.y)
    [] OTHER -> TRUE

Lo(o) == MinI(o.x1, o.x2)
Hi(o) == MaxI(o.x1, o.x2)
\* The cells of region [xa, xb] x [ya, yb] become v.
Filled(a, xa, xb, ya, yb, v) ==
  [a EXCEPT !.c = Rows(a.w, a.h, LAMBDA x, y : IF x \in xa..xb /\ y \in ya..yb THEN v ELSE At(a, x, y))]

Post1(a, o) ==
  CASE o.op = "set"   -> [a EXCEPT !.c[o.y + 1][o.x + 1] = o.v]
    [] o.op = "fill"  -> Filled(a, Lo(o), Hi(o), MinI(o.y1, o.y2), MaxI(o.y1, o.y2), o.v)
    \* writes v at index k of the row, of the span, of the slice kept
    [] o.op = "wrow"  -> [a EXCEPT !.c[o.y + 1][o.k + 1] = o.v]
    [] o.op = "wspan" -> [a EXCEPT !.c[o.y + 1][Lo(o) + o.k + 1] = o.v]
    [] o.op = "wkept" -> [a EXCEPT !.c[a.held[3] + 1][a.held[1] + o.k + 1] = o.v]
    [] o.op = "keeprow"  -> [a EXCEPT !.held = <<0, a.w - 1, o.y>>]
    [] o.op = "keepspan" -> [a EXCEPT !.held = <<Lo(o), Hi(o), o.y>>]
    [] OTHER -> a
Post(s, o) ==
  CASE o.op = "reset"     -> EmptyFn
    [] o.op = "new"       -> (o.i :> Arr(o.w, o.h, Rows(o.w, o.h, LAMBDA x, y : 0))) @@ s
    [] o.op = "newfilled" -> (o.i :> Arr(o.w, o.h, Rows(o.w, o.h, LAMBDA x, y : o.v))) @@ s
    [] o.op = "of"        -> (o.i :> Arr(o.w, o.h, Rows(o.w, o.h, LAMBDA x, y : Jag(o.rows, x, y)))) @@ s
    [] o.op = "copy"      -> (o.j :> Arr(s[o.i].w, s[o.i].h, s[o.i].c)) @@ s
    [] OTHER -> IF InRange(s[o.i], o) THEN [s EXCEPT ![o.i] = Post1(@, o)] ELSE s

Cells(a, xa, xb, y) == [k \in 1..(xb - xa + 1) |-> At(a, xa + k - 1, y)]
Answer(a, o) ==
  CASE o.op = "get"  -> <<At(a, o.x, o.y)>>
    [] o.op \in {"row", "keeprow"}   -> a.c[o.y + 1]
    [] o.op \in {"span", "keepspan"} -> Cells(a, Lo(o), Hi(o), o.y)
    [] o.op = "kept" -> Cells(a, a.held[1], a.held[2], a.held[3])
    [] o.op = "all"  -> a.c          \* every cell read, row by row
    [] o.op = "str"  -> a.c          \* the string form, taken apart
    [] o.op = "dims" -> <<a.w, a.h>>
    [] OTHER -> <<>>
Ctors == {"reset", "new", "newfilled", "of"}
Accept(s, o) ==
  IF o.op \in Ctors THEN Returns(o)
  ELSE IF InRange(s[o.i], o) THEN Returns(o) /\ o.r = Answer(s[o.i], o)
  ELSE Panics(o)
A(s, o) == LET ok == o.op \in Ctors \/ InRange(s[o.i], o) IN
  [f \in DOMAIN o \cup {"p", "r"} |-> IF f = "p" THEN B(~ok) ELSE IF f = "r" THEN (IF ok /\ o.op \notin Ctors THEN Answer(s[o.i], o) ELSE <<>>) ELSE o[f]]

ObsArr(s, i) ==
  LET a == s[i]
      RECURSIVE Each(_)
      Each(y) == IF y >= a.h THEN <<>> ELSE <<A(s, [op |-> "row", i |-> i, y |-> y])>> \o Each(y + 1)
  IN  <<A(s, [op |-> "dims", i |-> i]), A(s, [op |-> "all", i |-> i]), A(s, [op |-> "str", i |-> i])>> \o Each(0)
      \o (IF a.held[2] >= a.held[1] THEN <<A(s, [op |-> "kept", i |-> i])>> ELSE <<>>)
\* Every access to one cell, row or span that is out of range by at most one, or by far.
ObsBounds(s, i) ==
  LET a == s[i]
      Far == {-2147483647, 2147483647}
      X == (-1..a.w) \cup Far
      Y == (-1..a.h) \cup Far
      Gets  == {[op |-> "get", i |-> i, x |-> x, y |-> y] : x \in X, y \in Y}
      Ros   == {[op |-> "row", i |-> i, y |-> y] : y \in Y}
      Spans == {[op |-> "span", i |-> i, x1 |-> x, x2 |-> z, y |-> y] : x \in X, z \in X, y \in Y}
      Q == AsSeq(Gets) \o AsSeq(Ros) \o AsSeq(Spans)
  IN  [n \in 1..Len(Q) |-> A(s, Q[n])] \o <<A(s, [op |-> "all", i |-> i])>>
=============================================================================
