------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* DESIGN of the ordering helpers of generic.go.                           *)
(***************************************************************************)
EXTENDS Common
L(a, b) == a[1] < b[1]
Compare(a, b) == IF L(a, b) THEN -1 ELSE IF L(b, a) THEN 1 ELSE 0
MaxF(a, b) == IF L(b, a) THEN a ELSE b
MinF(a, b) == IF L(a, b) THEN a ELSE b
ClampF(x, lo, hi) == MaxF(lo, MinF(hi, x))
=============================================================================
