----------------------------- MODULE MCHelpers ------------------------------
(***************************************************************************)
(* Every call on values of R ranks with T tags each.  The helpers for      *)
(* naturally ordered types (zero = FALSE: no tags; zero = TRUE: the two    *)
(* zeros of floating point numbers, tags 1 and 2 of rank 0) as well.       *)
(***************************************************************************)
EXTENDS Helpers, HelperModel, Json
CONSTANTS R, T
VARIABLES ok, path

Res(o) ==
  CASE o.op = "compare" -> <<Compare(o.a, o.b)>>
    [] o.op = "less"    -> <<B(L(o.a, o.b))>>
    [] o.op = "equals"  -> <<B(o.a = o.b)>>
    [] o.op \in {"max", "maxf"} -> MaxF(o.a, o.b)
    [] o.op \in {"min", "minf"} -> MinF(o.a, o.b)
    [] OTHER -> ClampF(o.a, o.b, o.c)
Do(o) ==
  LET full == [f \in DOMAIN o \cup {"p", "r", "any"} |-> IF f = "p" THEN 0 ELSE IF f = "r" THEN Res(o) ELSE IF f = "any" THEN AsSeq(Answers(o)) ELSE o[f]]
  IN  ok' = Accept(S0, full) /\ path' = Append(path, full)
Init == ok = TRUE /\ path = <<>>

El == {<<r, t>> : r \in 1..R, t \in 1..T}
Plain == {<<r, 1>> : r \in 1..R}
Floats == {<<-2, 1>>, <<-1, 1>>, <<0, 1>>, <<0, 2>>, <<1, 1>>, <<2, 1>>}
Calls(S, two, three, z) ==
  \E a \in S, b \in S :
     \/ \E op \in two : Do([op |-> op, a |-> a, b |-> b, z |-> z])
     \/ \E c \in S : b[1] <= c[1] /\ \E op \in three : Do([op |-> op, a |-> a, b |-> b, c |-> c, z |-> z])
Next == path = <<>> /\ (\/ Calls(El, {"compare", "maxf", "minf"}, {"clampf"}, 0)
                        \/ Calls(Plain, {"compare", "less", "equals", "max", "min", "maxf", "minf"}, {"clamp", "clampf"}, 1)
                        \/ Calls(Floats, {"compare", "less", "max", "min", "maxf", "minf"}, {"clamp", "clampf"}, 2))
View == <<ok, path>>
Refines == ok
Emit == PrintT(ToJson(path'))
=============================================================================
