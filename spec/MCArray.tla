------------------------------ MODULE MCArray -------------------------------
(***************************************************************************)
(* Arrays of every shape in Shapes (100 * width + height), created in      *)
(* every way, then changed Depth times in every way.  Bounds: also by      *)
(* coordinates out of range.                                               *)
(***************************************************************************)
EXTENDS Array2D, ArrayModel, Json
CONSTANTS Shapes, Depth, Bounds, NI, Jags
VARIABLES d, s, ok, path

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ LET full == A(s, o) IN ok' = Accept(s, full) /\ path' = Append(path, full)
  /\ Evaluated(<<d', s', path'>>)
Init == d = EmptyFn /\ s = S0 /\ ok = TRUE /\ path = <<>>

I == DOMAIN s
V == 10 * (Len(path) + 1)
W(sh) == sh \div 100
H(sh) == sh % 100
\* Rows of at most one value too many, and at most one row too many.
Jagged(w, h) == {q \in UNION {[1..m -> {0, 1, w, w + 1}] : m \in 0..(h + 1)} : TRUE}
RowsOf(q) == [y \in 1..Len(q) |-> [x \in 1..q[y] |-> 10 * y + x]]
Create ==
  /\ I = {}
  /\ \E sh \in Shapes : LET w == W(sh)  h == H(sh) IN
     \/ Do([op |-> "new", i |-> 1, w |-> w, h |-> h], (1 :> Flat0(w, h, 0)))
     \/ Do([op |-> "newfilled", i |-> 1, w |-> w, h |-> h, v |-> 7], (1 :> DFilled(w, h, 7)))
     \/ Jags /\ \E q \in Jagged(w, h) : Do([op |-> "of", i |-> 1, w |-> w, h |-> h, rows |-> RowsOf(q)], (1 :> DOf(w, h, RowsOf(q))))

Ex == IF Bounds THEN 1 ELSE 0
Far == IF Bounds THEN {-2147483647, 2147483647} ELSE {}
XS(i) == (-Ex..(d[i].w - 1 + Ex)) \cup Far
YS(i) == (-Ex..(d[i].h - 1 + Ex)) \cup Far
\* The step has the effect f on the design if its coordinates are in range.
Step(i, o, e) == Do(o, IF InRange(s[i], o) THEN [d EXCEPT ![i] = e] ELSE d)
Change == \E i \in I : LET a == d[i] IN
  \/ \E x \in XS(i), y \in YS(i) : LET o == [op |-> "set", i |-> i, x |-> x, y |-> y, v |-> V] IN
        Step(i, o, DSet(a, x, y, V))
  \/ \E x \in XS(i), y \in YS(i), z \in XS(i), u \in YS(i) :
        LET o == [op |-> "fill", i |-> i, x1 |-> x, y1 |-> y, x2 |-> z, y2 |-> u, v |-> V] IN
        Step(i, o, DFill(a, x, y, z, u, V))
  \/ \E y \in YS(i), k \in 0..(a.w - 1) : LET o == [op |-> "wrow", i |-> i, y |-> y, k |-> k, v |-> V] IN
        Step(i, o, DSet(a, k, y, V))
  \/ \E x \in XS(i), z \in XS(i), y \in YS(i) : \E k \in 0..MaxI(0, MinI(a.w, MaxI(x, z)) - MaxI(0, MinI(x, z))) :
        LET o == [op |-> "wspan", i |-> i, x1 |-> x, x2 |-> z, y |-> y, k |-> k, v |-> V] IN
        /\ (InRange(s[i], o) => k <= Hi(o) - Lo(o))
        /\ Step(i, o, DSet(a, Lo(o) + k, y, V))
  \/ \E y \in YS(i) : LET o == [op |-> "keeprow", i |-> i, y |-> y] IN (~Bounds /\ a.w > 0 /\ Step(i, o, a))
  \/ \E x \in XS(i), z \in XS(i), y \in YS(i) : LET o == [op |-> "keepspan", i |-> i, x1 |-> x, x2 |-> z, y |-> y] IN
        (~Bounds /\ Step(i, o, a))
  \/ LET hd == s[i].held IN \E k \in 0..(hd[2] - hd[1]) : LET o == [op |-> "wkept", i |-> i, k |-> k, v |-> V] IN
        Step(i, o, DSet(a, hd[1] + k, hd[3], V))
  \/ \E j \in 1..NI : (NI > 1 /\ j # i /\ Do([op |-> "copy", i |-> i, j |-> j], (j :> a) @@ d))
Next == Create \/ (Len(path) <= Depth /\ Change)

View == <<d, [i \in I |-> s[i].held], ok, Len(path)>>
Refines ==
  /\ ok
  /\ DOMAIN d = I
  /\ \A i \in I : d[i].w = s[i].w /\ d[i].h = s[i].h /\ DCells(d[i]) = s[i].c
RECURSIVE ObsAll(_, _)
ObsAll(t, J) == IF J = {} THEN <<>>
                ELSE LET i == CHOOSE i \in J : TRUE IN
                     (IF Bounds /\ Len(path) = 0 THEN ObsBounds(t, i) ELSE ObsArr(t, i)) \o ObsAll(t, J \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(s', DOMAIN s')))
=============================================================================
