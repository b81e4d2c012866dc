------------------------------- MODULE MCHash -------------------------------
(***************************************************************************)
(* Every sequence of L calls of the hash helpers, on values of the domain, *)
(* from any storage.  What the hashes are is not determined here, only     *)
(* which results must agree: "same" steps name two earlier calls whose     *)
(* results have to be equal, and "kept" the calls' inputs.                 *)
(***************************************************************************)
EXTENDS HashModel, Json
CONSTANTS L, Fns, Bytes, MaxBytes, Stores
VARIABLES path

Ints == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 100>>}
Vals(f) == IF f \in {"string", "bytes"} THEN UNION {[1..n -> Bytes] : n \in 0..MaxBytes} ELSE Ints
Init == path = <<>>
Next == /\ Len(path) < L
        /\ \E f \in Fns : \E v \in Vals(f) : \E st \in (IF f \in {"string", "bytes"} THEN Stores ELSE {0}) :
              path' = Append(path, [op |-> "hash", f |-> f, v |-> v, st |-> st, p |-> 0])
View == path
Pairs == {<<x, y>> \in (1..Len(path')) \X (1..Len(path')) : x < y /\ Key(path'[x]) = Key(path'[y])}
Refines == TRUE
Emit == Len(path') = L =>
  PrintT(ToJson(path' \o [n \in 1..Cardinality(Pairs) |-> LET q == AsSeq(Pairs)[n] IN
                             [op |-> "same", x |-> q[1], y |-> q[2], p |-> 0, r |-> <<1>>]]
                      \o [n \in 1..L |-> [op |-> "kept", x |-> n, p |-> 0, r |-> <<1>>]]))
=============================================================================
