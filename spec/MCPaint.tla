------------------------------ MODULE MCPaint -------------------------------
(***************************************************************************)
(* The closed form of 2-D arrays (PaintModel) side by side with the plain  *)
(* cells, for every array of the Shapes (100 * width + height) and every   *)
(* sequence of writes of the values 0..V.  With G > 1 every cell stands    *)
(* for a block of G times G cells; those behaviours drive the real code.   *)
(***************************************************************************)
EXTENDS PaintModel, Json
CONSTANTS Shapes, V, G, NI, Bounds, MaxOps
VARIABLES s, m, n, path

Plain == G = 1
W(sh) == (sh \div 100) * G
H(sh) == (sh % 100) * G
Full(t, o) == LET p == POf(t, o) IN o @@ [p |-> p, r |-> IF p = 1 \/ Creates(o) THEN <<>> ELSE Answer(t, o)]

PlainAfter(o) ==
  LET a == s[o.i] f == m[o.i]
      Over(C) == [c \in DOMAIN f |-> IF c \in C THEN o.v ELSE f[c]]
      Span(x1, x2, y1, y2) == (MinI(x1, x2)..MaxI(x1, x2)) \X (MinI(y1, y2)..MaxI(y1, y2))
  IN IF ~Inside(a, o) THEN f
     ELSE CASE o.op = "paint" -> Over(Span(o.x1, o.x2, o.y1, o.y2))
            [] o.op = "set"   -> Over({<<o.x, o.y>>})
            [] o.op = "wspan" -> Over(Span(o.x1, o.x2, o.y, o.y))
            [] o.op = "wrow"  -> Over(Span(0, a.w - 1, o.y, o.y))
            [] OTHER -> f
PlainPost(o) ==
  CASE o.op = "new" -> (o.i :> [c \in (0..(o.w - 1)) \X (0..(o.h - 1)) |-> o.v]) @@ m
    [] o.op = "jag" -> (o.i :> [c \in (0..(o.w - 1)) \X (0..(o.h - 1)) |-> IF c[1] < o.m /\ c[2] < o.n THEN o.v ELSE 0]) @@ m
    [] o.op = "copy" -> (o.j :> m[o.i]) @@ m
    [] OTHER -> (o.i :> PlainAfter(o)) @@ m

Do(o) ==
  /\ s' = Post(s, o)
  /\ m' = IF Plain THEN PlainPost(o) ELSE m
  /\ n' = n + 1
  /\ path' = Append(path, Full(s, o))
  /\ Evaluated(<<s', m', n', path'>>)

Init == s = S0 /\ m = EmptyFn /\ n = 0 /\ path = <<>>
Create == s = S0 /\ \E sh \in Shapes :
  \/ \E v \in {0, V} : Do([op |-> "new", i |-> 1, w |-> W(sh), h |-> H(sh), v |-> v])
  \/ \E a \in 0..((sh % 100) + 1), b \in 0..((sh \div 100) + 1) :
        Do([op |-> "jag", i |-> 1, w |-> W(sh), h |-> H(sh), n |-> a * G, m |-> b * G, v |-> 1])

\* The cells of block column x are x*G .. x*G+G-1; out of bounds: one beyond
\* either side.
E == IF Bounds THEN 1 ELSE 0
Xs(i, far) == {IF x < 0 THEN x ELSE IF far THEN MinI(x * G + G - 1, s[i].w) ELSE x * G : x \in -E..((s[i].w \div G) - 1 + E)}
Ys(i, far) == {IF y < 0 THEN y ELSE IF far THEN MinI(y * G + G - 1, s[i].h) ELSE y * G : y \in -E..((s[i].h \div G) - 1 + E)}
Change == \E i \in DOMAIN s, v \in 0..V :
  \/ \E x1 \in Xs(i, FALSE), x2 \in Xs(i, TRUE), y1 \in Ys(i, FALSE), y2 \in Ys(i, TRUE), t \in 0..1 :
        Do([op |-> "paint", i |-> i, x1 |-> IF t = 0 THEN x1 ELSE x2, x2 |-> IF t = 0 THEN x2 ELSE x1, y1 |-> y1, y2 |-> y2, v |-> v])
  \/ \E x \in Xs(i, TRUE), y \in Ys(i, TRUE) : Do([op |-> "set", i |-> i, x |-> x, y |-> y, v |-> v])
  \/ \E x1 \in Xs(i, FALSE), x2 \in Xs(i, TRUE), y \in Ys(i, TRUE) : Do([op |-> "wspan", i |-> i, x1 |-> x1, x2 |-> x2, y |-> y, v |-> v])
  \/ \E y \in Ys(i, TRUE) : Do([op |-> "wrow", i |-> i, y |-> y, v |-> v])
  \/ v = 0 /\ \E j \in 1..NI : j # i /\ Do([op |-> "copy", i |-> i, j |-> j])
Next == Create \/ (n <= MaxOps /\ Change)
View == <<s, m, n>>

CellAt(Z, x, y) == Held(RowAt(Z, y), x, x)[1][3]
Agree == \A i \in DOMAIN s : LET a == s[i] Z == a.cells IN
  /\ \A x \in 1..(Len(Z) - 1) : Z[x][2] + 1 = Z[x+1][1] /\ Z[x][3] # Z[x+1][3]
  /\ Z # <<>> => Z[1][1] = 0 /\ Z[Len(Z)][2] = a.h - 1
  /\ \A x \in 1..Len(Z) : LET R == Z[x][3] IN
       /\ \A z \in 1..(Len(R) - 1) : R[z][2] + 1 = R[z+1][1] /\ R[z][3] # R[z+1][3]
       /\ RSize(R) = a.w
  /\ Plain => \A c \in DOMAIN m[i] : CellAt(Z, c[1], c[2]) = m[i][c]

Obs(t, i) ==
  LET a == t[i]
      one(o) == LET q == o @@ [i |-> i] IN Full(t, q)
  IN <<one([op |-> "all"]), one([op |-> "dims"]), one([op |-> "rows"]), one([op |-> "str"])>>
     \o (IF a.w > 0 /\ a.h > 0
         THEN <<one([op |-> "get", x |-> a.w - 1, y |-> 0]), one([op |-> "get", x |-> 0, y |-> a.h - 1]), one([op |-> "row", y |-> a.h - 1]),
                one([op |-> "span", x1 |-> a.w - 1, x2 |-> a.w \div 2, y |-> a.h \div 2])>>
         ELSE <<>>)
     \o (IF Bounds
         THEN <<one([op |-> "get", x |-> a.w, y |-> 0]), one([op |-> "get", x |-> 0, y |-> a.h]), one([op |-> "get", x |-> -1, y |-> a.h - 1]),
                one([op |-> "row", y |-> a.h]), one([op |-> "row", y |-> -1]), one([op |-> "span", x1 |-> 0, x2 |-> a.w, y |-> 0]),
                one([op |-> "span", x1 |-> -1, x2 |-> a.w - 1, y |-> 0]), one([op |-> "span", x1 |-> 0, x2 |-> 0, y |-> a.h])>>
         ELSE <<>>)
RECURSIVE ObsAll(_, _)
ObsAll(t, i) == IF i > NI THEN <<>> ELSE (IF i \in DOMAIN t THEN Obs(t, i) ELSE <<>>) \o ObsAll(t, i + 1)
Emit == PrintT(ToJson(path' \o ObsAll(s', 1)))
=============================================================================
