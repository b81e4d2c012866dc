------------------------------ MODULE MCSpread ------------------------------
(***************************************************************************)
(* DESIGN of the integer hash, on words of W bits instead of 64: the word  *)
(* is xored with itself shifted right, and multiplied, twice, and xored    *)
(* again.  TLC checks for every pair of multipliers and every shift that   *)
(* no two words get the same hash (Injective) and that the hash has an     *)
(* inverse step by step (Undone); with even multipliers (Odd = FALSE) both *)
(* fail.                                                                   *)
(*   On the code, families of keys are hashed whose regularity survives    *)
(* poor hashes: all spacings by powers of two, times Muls, from Bases, and *)
(* neighbours in two bits.                                                 *)
(***************************************************************************)
EXTENDS SpreadModel, Bitwise, Json
CONSTANTS W, Odd, Fns, Muls, Bases, Sizes, Fills
VARIABLES m1, m2, sh, path

Words == 0..(2^W - 1)
Mult(x, m) == (x * m) % 2^W
Fold(x, k) == x ^^ (x \div 2^k)
Mix(x) == Fold(Mult(Fold(Mult(Fold(x, sh), m1), sh), m2), sh)

Mults == {m \in {3, 5, 27, 91, 2^W - 3} : m < 2^W} \cup (IF Odd THEN {} ELSE {6})
Init == m1 \in Mults /\ m2 \in Mults /\ sh \in (W \div 2)..(W - 1) /\ path = <<>>
Injective == path = <<>> => Cardinality({Mix(x) : x \in Words}) = 2^W
\* x |-> x ^ (x >> k) is its own inverse when 2k >= W; odd multipliers have one.
Undone == path = <<>> => (/\ \A x \in Words : Fold(Fold(x, sh), sh) = x
                          /\ \A m \in {m1, m2} : \E i \in Words : Mult(m, i) = 1)

First == m1 = 3 /\ m2 = 3 /\ sh = W - 1
Text(f) == f \in {"string", "bytes"}
Family(f, fam, base, k, mul, n, b) == [op |-> "spread", f |-> f, fam |-> fam, base |-> <<base, base, base, base>>, sh |-> k, mul |-> mul, n |-> n, b |-> b, p |-> 0, r |-> <<1, 1, 1>>]
Do(o) == Proper(o) /\ path' = <<o @@ [lim |-> <<o.n, Fewest(o), Fullest(o)>>]>> /\ UNCHANGED <<m1, m2, sh>>
Next == /\ path = <<>> /\ First
        /\ \E f \in Fns : \E base \in Bases :
             IF Text(f)
             THEN \E n \in Sizes : \E fam \in {"number", "byte"} : \E k \in 0..12 \cup Fills : \E mul \in Muls : Do(Family(f, fam, base, k, mul, n, Log2(n)))
             ELSE \/ LET n == Pairs(Width(f)) IN n >= 200 /\ Do(Family(f, "bits", base, 0, 1, n, Log2(n)))
                  \/ \E n \in Sizes \cup {2^MinI(16, Width(f))} : \E mul \in Muls : \E k \in 0..(Width(f) - 1) : \E more \in {0, 1} :
                        Do(Family(f, "step", base, k, mul, n, Log2(n) + more))
View == <<m1, m2, sh, path>>
Emit == PrintT(ToJson(path'))
=============================================================================
