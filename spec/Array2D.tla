------------------------------ MODULE Array2D -------------------------------
(***************************************************************************)
(* DESIGN of array2d: one flat slice (zero-based in the code, one-based    *)
(* here), row after row; filling doubles the filled prefix of a region's   *)
(* first row and copies that row to the others.                            *)
(***************************************************************************)
EXTENDS Common

Flat0(w, h, v) == [w |-> w, h |-> h, s |-> [k \in 1..(w * h) |-> v]]
Ix(d, x, y) == x + y * d.w + 1
DSet(d, x, y, v) == [d EXCEPT !.s[Ix(d, x, y)] = v]
DGet(d, x, y) == d.s[Ix(d, x, y)]
\* copy(dst[a:], src[b:b+n]) within the flat slice
CopyIn(s, a, b, n) == [k \in 1..Len(s) |-> IF k >= a /\ k < a + n THEN s[b + k - a] ELSE s[k]]

RECURSIVE Double(_, _, _, _)
\* s[a..a+n-1] is to be filled, and filled up to i elements.
Double(s, a, n, i) == IF i >= n THEN s ELSE Double(CopyIn(s, a + i, a, MinI(i, n - i)), a, n, i + i)
FillRow(s, a, n, v) == IF n = 0 THEN s ELSE Double([s EXCEPT ![a] = v], a, n, 1)
RECURSIVE CopyRows(_, _, _, _, _, _)
CopyRows(d, s, x, n, y1, ys) ==
  IF ys = {} THEN s
  ELSE LET y == CHOOSE y \in ys : TRUE IN CopyRows(d, CopyIn(s, Ix(d, x, y), Ix(d, x, y1), n), x, n, y1, ys \ {y})
DFill(d, x1, y1, x2, y2, v) ==
  LET xa == MinI(x1, x2)
      xb == MaxI(x1, x2)
      ya == MinI(y1, y2)
      yb == MaxI(y1, y2)
      s1 == FillRow(d.s, Ix(d, xa, ya), xb - xa + 1, v)
  IN  [d EXCEPT !.s = CopyRows(d, s1, xa, xb - xa + 1, ya, (ya + 1)..yb)]
DFilled(w, h, v) == LET d == Flat0(w, h, 0) IN [d EXCEPT !.s = FillRow(@, 1, w * h, v)]
DOf(w, h, rows) ==
  LET d == Flat0(w, h, 0)
      RECURSIVE Put(_, _)
      Put(s, y) == IF y >= h \/ y >= Len(rows) THEN s
                   ELSE Put([k \in 1..Len(s) |-> LET x == k - Ix(d, 0, y) IN
                             IF x >= 0 /\ x < w /\ x < Len(rows[y + 1]) THEN rows[y + 1][x + 1] ELSE s[k]], y + 1)
  IN  [d EXCEPT !.s = Put(@, 0)]
DCells(d) == [y \in 1..d.h |-> [x \in 1..d.w |-> DGet(d, x - 1, y - 1)]]
=============================================================================
