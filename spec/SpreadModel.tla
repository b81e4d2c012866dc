---------------------------- MODULE SpreadModel -----------------------------
(***************************************************************************)
(* CONTRACT of how hash helpers tell keys apart.  A step hashes a regular  *)
(* family of n different keys with helper f and counts                     *)
(*   r[1]  the different hashes,                                           *)
(*   r[2]  the slots used of a table of 2^b, picked by the low bits,       *)
(*   r[3]  the keys in the fullest slot.                                   *)
(* Families: "step"   base + x * mul * 2^sh for x in 0..n-1                *)
(*           "bits"   base with at most two bits inverted                  *)
(*           "number" texts with the decimal number base + x * mul in      *)
(*           "byte"   two bytes somewhere in a text                        *)
(* Different integers of a type have different hashes; of texts this may   *)
(* be expected for the few there are.  Random placement of n keys in 2^b   *)
(* slots, n <= 2^b, uses at least 0.63 n of them.                          *)
(***************************************************************************)
EXTENDS Common

S0 == 0
Post(s, o) == s

Width(f) == CASE f \in {"uint8", "int8"} -> 8 [] f \in {"uint16", "int16"} -> 16 [] f \in {"uint32", "int32"} -> 32 [] OTHER -> 64
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)     \* rounded up
Pairs(w) == 1 + w + (w * (w - 1)) \div 2
\* The keys are different, and there are enough for statistics.
Proper(o) ==
  /\ o.n >= 200 /\ o.n <= 2^o.b
  /\ CASE o.fam = "step" -> o.sh + Log2(o.mul) + Log2(o.n) <= Width(o.f)
       [] o.fam = "bits" -> o.n = Pairs(Width(o.f))
       [] o.fam = "byte" -> o.n <= 65536
       [] OTHER -> o.mul > 0
\* The text hash spreads regular families less evenly: over many of them, two
\* bytes use 0.2 n slots and numbers 0.39 n at worst (see DESIGN.md).
Loose(o)   == CASE o.fam = "byte" -> 8 [] o.fam = "number" -> 2 [] OTHER -> 1
Fewest(o)  == o.n \div (2 * Loose(o))
Fullest(o) == 16 * Loose(o)
Spread(o, r) == r[1] = o.n /\ r[2] >= Fewest(o) /\ r[3] <= Fullest(o)
Accept(s, o) == o.op = "spread" => Assert(Proper(o), "not a family of different keys") /\ Returns(o) /\ Spread(o, o.r)
=============================================================================
