------------------------------ MODULE SeqModel ------------------------------
(***************************************************************************)
(* CONTRACT of packages queue and stack: an instance is a sequence of      *)
(* integers, 0 being the zero value; queue: front first, stack: bottom     *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
LastOf(q) == q[Len(q)]
Rest(q)  == SubSeq(q, 2, Len(q))
Most(q)  == SubSeq(q, 1, Len(q) - 1)

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> <<>>) @@ s
    [] o.op = "of"    -> (o.i :> o.vals) @@ s
    [] o.op \in {"enq", "push"} -> (o.i :> Append(s[o.i], o.v)) @@ s
    \* many at once: v, v+1, ... enter; up to n leave
    [] o.op = "many"  -> (o.i :> (s[o.i] \o [x \in 1..o.n |-> o.v + x - 1])) @@ s
    \* n times from the front to the back
    [] o.op = "rot" /\ s[o.i] # <<>> ->
         LET q == s[o.i] n == o.n % Len(q) IN (o.i :> (SubSeq(q, n + 1, Len(q)) \o SubSeq(q, 1, n))) @@ s
    [] o.op = "deqn"  -> (o.i :> SubSeq(s[o.i], MinI(o.n, Len(s[o.i])) + 1, Len(s[o.i]))) @@ s
    [] o.op = "popn"  -> (o.i :> SubSeq(s[o.i], 1, MaxI(0, Len(s[o.i]) - o.n))) @@ s
    [] o.op \in {"deq", "trydeq"} -> IF s[o.i] = <<>> THEN s ELSE (o.i :> Rest(s[o.i])) @@ s
    [] o.op \in {"deqall", "clear"} -> (o.i :> <<>>) @@ s
    [] o.op = "pop"   -> IF s[o.i] = <<>> THEN s ELSE (o.i :> Most(s[o.i])) @@ s
    [] o.op = "copy"  -> (o.j :> s[o.i]) @@ s
    [] OTHER -> s

\* The result the contract prescribes, <<p, r>>.
Answer(s, o) ==
  LET q == IF "i" \in DOMAIN o /\ o.i \in DOMAIN s THEN s[o.i] ELSE <<>> IN
  CASE o.op \in {"deq", "peek"} -> IF q = <<>> THEN <<1, <<>>>> ELSE <<0, <<q[1]>>>>
    [] o.op \in {"trydeq", "trypeek"} -> IF q = <<>> THEN <<0, <<0, 0>>>> ELSE <<0, <<q[1], 1>>>>
    [] o.op \in {"deqall", "peekall", "each"} -> <<0, q>>
    [] o.op = "deqn" -> <<0, SubSeq(q, 1, MinI(o.n, Len(q)))>>
    [] o.op = "popn" -> <<0, [x \in 1..MinI(o.n, Len(q)) |-> q[Len(q) + 1 - x]]>>
    [] o.op \in {"len", "size"} -> <<0, <<Len(q)>>>>
    [] o.op = "empty" -> <<0, <<B(q = <<>>)>>>>
    [] o.op \in {"pop", "top"} -> <<0, IF q = <<>> THEN <<0>> ELSE <<LastOf(q)>>>>
    [] OTHER -> <<0, <<>>>>

Accept(s, o) == LET a == Answer(s, o) IN o.p = a[1] /\ (o.p = 0 => o.r = a[2])

\* Step op on instance i with the prescribed result.
S1(s, op, i) == LET o == [op |-> op, i |-> i] a == Answer(s, o) IN [op |-> op, i |-> i, p |-> a[1], r |-> a[2]]
ObsQueue(s, i) == <<S1(s, "each", i), S1(s, "len", i), S1(s, "empty", i), S1(s, "peekall", i), S1(s, "trypeek", i),
                    S1(s, "peek", i), S1(s, "len", i), S1(s, "each", i)>>
ObsStack(s, i) == <<S1(s, "size", i), S1(s, "top", i), S1(s, "size", i)>>
=============================================================================
