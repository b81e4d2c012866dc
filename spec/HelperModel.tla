---------------------------- MODULE HelperModel ----------------------------
(***************************************************************************)
(* CONTRACT of the ordering helpers.  A value is <<rank, tag>>: the less   *)
(* function compares ranks only, so values of equal rank and different tag *)
(* are equivalent but not the same.  (Every strict weak order on a finite  *)
(* set is such a ranking.)  Which of two equivalent values max and min     *)
(* return is left open; clamping leaves it open nowhere.                   *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Lt(a, b) == a[1] < b[1]
Post(s, o) == s

Answers(o) ==
  CASE o.op = "compare" -> {IF Lt(o.a, o.b) THEN <<-1>> ELSE IF Lt(o.b, o.a) THEN <<1>> ELSE <<0>>}
    [] o.op = "less"    -> {<<B(Lt(o.a, o.b))>>}
    [] o.op = "equals"  -> {<<B(o.a = o.b)>>}
    [] o.op \in {"max", "maxf"} -> {x \in {o.a, o.b} : ~Lt(x, o.a) /\ ~Lt(x, o.b)}
    [] o.op \in {"min", "minf"} -> {x \in {o.a, o.b} : ~Lt(o.a, x) /\ ~Lt(o.b, x)}
    \* a clamped to [b, c]
    [] o.op \in {"clamp", "clampf"} -> {IF Lt(o.a, o.b) THEN o.b ELSE IF Lt(o.c, o.a) THEN o.c ELSE o.a}
    [] OTHER -> {<<>>}
Accept(s, o) == Returns(o) /\ (o.op = "reset" \/ o.r \in Answers(o))
=============================================================================
