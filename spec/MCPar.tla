-------------------------------- MODULE MCPar -------------------------------
(***************************************************************************)
(* Every interleaving of two goroutines that run separate programs on      *)
(* instances of one kind of container: instance 1 is shared and read only, *)
(* instance 1 + p belongs to goroutine p.  A step of a goroutine takes     *)
(* effect in two halves (it begins, reading what it needs, and ends,       *)
(* writing what it writes), so that steps of both overlap in every way.    *)
(* Confluent: every interleaving gives the results and the contents of     *)
(* running the programs one after another.                                 *)
(*   With Memo = TRUE lookups of the shared instance leave a note of the   *)
(* last key and its value, in two halves: a design in which Confluent      *)
(* fails; it is not checked, it shows that the property can fail.          *)
(***************************************************************************)
EXTENDS ParModel, Json
CONSTANTS T, N, G, L, Ops, Memo
VARIABLES s, ws, pc, half, got, memo, order, setup

Shared == 1
Own(p) == 1 + p
Ks == 0..(N - 1)
SharedReads ==
  IF T \in {"map", "set"}
  THEN {[op |-> "get", i |-> Shared, k |-> k * G] : k \in 0..N} \cup {[op |-> op, i |-> Shared] : op \in {"size", "runs"}}
       \cup {[op |-> "hits", i |-> Shared, k |-> 0, n |-> N * G]}
       \cup {[op |-> "over", i |-> Shared, k |-> 1, n |-> G], [op |-> "longest", i |-> Shared, k |-> 0], [op |-> "rev", i |-> Shared, v |-> 0]}
  ELSE {[op |-> op, i |-> Shared] : op \in {"size", "runs", "back-runs", "peekall", "peekf", "peekb", "min"}}
       \cup {[op |-> "at", i |-> Shared, pos |-> G - 1], [op |-> "slice", i |-> Shared, pos |-> 0, n |-> G]}
OwnOps(p) ==
  LET i == Own(p) IN
  IF T \in {"map", "set"}
  THEN {[op |-> "fill", i |-> i, k |-> k * G, n |-> G, v |-> k * G, how |-> 0] : k \in Ks}
       \cup {[op |-> "drain", i |-> i, k |-> 0, n |-> G, how |-> 0], [op |-> "runs", i |-> i], [op |-> "clear", i |-> i]}
       \cup {[op |-> "union", i |-> Shared, a |-> Shared, j |-> i], [op |-> "inter", i |-> i, a |-> Shared],
             [op |-> "sub", i |-> i, a |-> Shared], [op |-> "eq", i |-> Shared, a |-> Shared]}
  ELSE {[op |-> "back", i |-> i, n |-> G, v |-> 7], [op |-> "runs", i |-> i], [op |-> "clear", i |-> i]}
       \cup (IF RSize(s[i].R) >= 2 * G THEN {[op |-> "popf", i |-> i, n |-> G], [op |-> "popb", i |-> i, n |-> G], [op |-> "del", i |-> i, pos |-> 0, n |-> G],
                                      [op |-> "delit", i |-> i, pos |-> 1, n |-> 1]} ELSE {})
       \cup {[op |-> "ins", i |-> i, pos |-> 0, n |-> G, v |-> 9, side |-> 1], [op |-> "insit", i |-> i, pos |-> 0, n |-> G, v |-> 9, side |-> 1]}
       \cup {[op |-> "vins", i |-> Shared, j |-> i, pos |-> 1, n |-> G, v |-> 9], [op |-> "vdel", i |-> Shared, j |-> i, pos |-> 0, n |-> G - 1],
             [op |-> "cutl", i |-> Shared, j |-> i, pos |-> 1], [op |-> "cutr", i |-> Shared, j |-> i, pos |-> 1], [op |-> "cat", i |-> Shared, j |-> i, a |-> Shared]}
Named(o) == CASE o.op = "vins" -> [o EXCEPT !.op = "ins"] [] o.op = "vdel" -> [o EXCEPT !.op = "del"] [] OTHER -> o
Steps(p) == {Named(o) : o \in {o \in SharedReads \cup OwnOps(p) : o.op \in Ops}}

Build(i, v) == IF T \in {"map", "set"} THEN [op |-> "fill", i |-> i, k |-> 0, n |-> N * G, v |-> 0, how |-> 0, p |-> 0, r |-> <<>>]
               ELSE [op |-> IF "back" \in Ops THEN "back" ELSE "ins", i |-> i, n |-> N * G, v |-> v, pos |-> 0, side |-> 1, p |-> 0, r |-> <<>>]
NewOp(i, c) == [op |-> "new", i |-> i, t |-> IF T = "set" THEN "map" ELSE T, c |-> c, p |-> 0, r |-> <<>>]
Setup == <<NewOp(1, 3), NewOp(2, 3), NewOp(3, 3), Build(1, 0), Build(2, 100 * G), Build(3, 200 * G)>>
RECURSIVE Fold(_, _)
Fold(t, q) == IF q = <<>> THEN t ELSE Fold(Post(t, q[1]), Tail(q))

Init == /\ setup = Setup /\ s = Fold(S0, Setup)
        /\ ws = <<<<>>, <<>>>> /\ pc = <<0, 0>> /\ half = <<FALSE, FALSE>> /\ got = <<<<>>, <<>>>>
        /\ memo = <<-1, <<>>>> /\ order = <<>>
        /\ Evaluated(<<s, setup>>)

\* A goroutine begins a step: it picks it and reads what the answer needs.
Begin(p) == /\ ~half[p] /\ pc[p] < L
            /\ \E o \in Steps(p) :
                 /\ ws' = [ws EXCEPT ![p] = Append(@, o)]
                 /\ LET a == IF Memo /\ o.op = "get" /\ o.i = Shared /\ memo[1] = o.k THEN memo[2] ELSE Answer(s, o)
                    IN got' = [got EXCEPT ![p] = Append(@, a)]
                 /\ memo' = IF Memo /\ o.op = "get" /\ o.i = Shared THEN <<o.k, memo[2]>> ELSE memo
            /\ half' = [half EXCEPT ![p] = TRUE]
            /\ order' = Append(order, p)
            /\ UNCHANGED <<s, pc, setup>>
\* It ends it: what it changes takes effect.
End(p) == /\ half[p]
          /\ LET o == ws[p][Len(ws[p])] IN
               /\ s' = Post(s, o)
               /\ memo' = IF Memo /\ o.op = "get" /\ o.i = Shared THEN <<memo[1], got[p][Len(got[p])]>> ELSE memo
          /\ half' = [half EXCEPT ![p] = FALSE] /\ pc' = [pc EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<ws, got, order, setup>>
Next == \E p \in 1..2 : Begin(p) \/ End(p)
View == <<s, ws, pc, half, got, memo>>

Done == pc = <<L, L>>
Confluent ==
  /\ Separate(ws)
  /\ (half = <<FALSE, FALSE>>) => LET r == RunAll(Fold(S0, setup), ws, 1, <<>>) IN s = r[1] /\ got = r[2]

\* One behaviour per pair of programs; both orders give the same.
RECURSIVE Reads(_)
Reads(i) == IF i > 3 THEN <<>> ELSE <<[op |-> IF "runs" \in Ops THEN "runs" ELSE "size", i |-> i, p |-> 0,
              r |-> IF "runs" \in Ops THEN s'[i].R ELSE <<RSize(s'[i].R)>>]>> \o Reads(i + 1)
Emit == IF pc' = <<L, L>> /\ ~half'[1] /\ ~half'[2]
        THEN PrintT(ToJson(setup \o <<[op |-> "par", ws |-> ws', p |-> 0, r |-> got']>> \o Reads(1)))
        ELSE TRUE
=============================================================================
