----------------------------- MODULE HashModel ------------------------------
(***************************************************************************)
(* CONTRACT of the hash helpers.  The state is what has been observed: the *)
(* hash of each helper and value so far.  A hash is four 16-bit numbers;   *)
(* an integer too (its two's complement), a string is its bytes.  Equal    *)
(* keys have equal hashes; nothing is required of different ones.          *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
\* HashString and HashBytes agree on the same bytes.
Key(o) == <<IF o.f = "string" THEN "bytes" ELSE o.f, o.v>>
Hash(o) == SubSeq(o.r, 1, 4)
\* Observations are grouped, because a group is copied when it grows.
Group(o) == <<Key(o)[1], Len(o.v), IF o.v = <<>> THEN 0 ELSE (o.v[1] + o.v[Len(o.v)]) % 64>>
Known(s, o) == Group(o) \in DOMAIN s /\ Key(o) \in DOMAIN s[Group(o)]
Post(s, o) ==
  IF o.op # "hash" \/ Known(s, o) THEN s
  ELSE LET g == Group(o)
       IN  (g :> ((Key(o) :> Hash(o)) @@ (IF g \in DOMAIN s THEN s[g] ELSE EmptyFn))) @@ s
\* r[5]: whether the value hashed is unchanged afterwards.
Accept(s, o) ==
  /\ Returns(o)
  /\ o.op = "hash" => /\ Len(o.r) = 5 /\ o.r[5] = 1
                      /\ Known(s, o) => s[Group(o)][Key(o)] = Hash(o)
=============================================================================
