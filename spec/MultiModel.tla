----------------------------- MODULE MultiModel -----------------------------
(***************************************************************************)
(* CONTRACT of package multimap: an instance has a kind and a bag (as      *)
(* function from <<key, value>> to the number of occurrences) of entries.  *)
(* Kinds with "slice" permit duplicates.  Listings are compared in sorted  *)
(* order: the driver sorts exactly what the kind leaves unsorted.          *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn
Dups(kind) == kind \in {"mapslice", "avlslice"}

MAdd(c, e) ==
  IF e \in DOMAIN c.e THEN IF Dups(c.kind) THEN [c EXCEPT !.e[e] = @ + 1] ELSE c
  ELSE [c EXCEPT !.e = (e :> 1) @@ @]
MDel(c, e) ==
  IF e \notin DOMAIN c.e THEN c
  ELSE IF c.e[e] > 1 THEN [c EXCEPT !.e[e] = @ - 1] ELSE [c EXCEPT !.e = Without(@, e)]
MDelKey(c, k) == [c EXCEPT !.e = [x \in {y \in DOMAIN c.e : y[1] # k} |-> c.e[x]]]

Post(s, o) ==
  CASE o.op = "reset"  -> EmptyFn
    [] o.op = "new"    -> (o.i :> [kind |-> o.kind, e |-> EmptyFn]) @@ s
    [] o.op = "put"    -> (o.i :> MAdd(s[o.i], <<o.k, o.v>>)) @@ s
    [] o.op = "remove" -> (o.i :> MDel(s[o.i], <<o.k, o.v>>)) @@ s
    [] o.op = "removeall" -> (o.i :> MDelKey(s[o.i], o.k)) @@ s
    [] o.op = "clear"  -> (o.i :> [s[o.i] EXCEPT !.e = EmptyFn]) @@ s
    [] OTHER -> s

KeysOf(b) == {x[1] : x \in DOMAIN b}
ValsOf(b, k) == {x[2] : x \in {y \in DOMAIN b : y[1] = k}}
CountOf(b, k) == SumF(b, {x \in DOMAIN b : x[1] = k})
\* The values of key k in increasing order, with repetitions.
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Spread(_, _, _)
Spread(b, k, q) == IF q = <<>> THEN <<>> ELSE Rep(q[1], b[<<k, q[1]>>]) \o Spread(b, k, SubSeq(q, 2, Len(q)))
Listing(b, k) == Spread(b, k, Sorted(ValsOf(b, k)))
Assocs(b) == LET q == Sorted(KeysOf(b)) IN [x \in 1..Len(q) |-> <<q[x]>> \o Listing(b, q[x])]
RECURSIVE Flat(_, _)
Flat(b, q) == IF q = <<>> THEN <<>> ELSE LET l == Listing(b, q[1]) IN [x \in 1..Len(l) |-> <<q[1], l[x]>>] \o Flat(b, SubSeq(q, 2, Len(q)))

Answer(b, o) ==
  CASE o.op = "dim"   -> <<Cardinality(KeysOf(b))>>
    [] o.op = "size"  -> <<SumF(b, DOMAIN b)>>
    [] o.op = "count" -> <<CountOf(b, o.k)>>
    [] o.op = "has"   -> <<B(o.k \in KeysOf(b))>>
    [] o.op = "get"   -> Listing(b, o.k)
    [] o.op = "each"  -> Flat(b, Sorted(KeysOf(b)))
    [] o.op = "assoc" -> Assocs(b)
    [] OTHER -> <<>>

Accept(s, o) == Returns(o) /\ (o.op \in {"reset", "new"} \/ o.r = Answer(s[o.i].e, o))

ObsMulti(s, i, K) ==
  LET q == Sorted(K)
      A(op) == [op |-> op, i |-> i, p |-> 0, r |-> Answer(s[i].e, [op |-> op])]
      AK(op, k) == [op |-> op, i |-> i, k |-> k, p |-> 0, r |-> Answer(s[i].e, [op |-> op, k |-> k])]
      RECURSIVE Per(_)
      Per(x) == IF x > Len(q) THEN <<>> ELSE <<AK("get", q[x]), AK("count", q[x]), AK("has", q[x])>> \o Per(x + 1)
  IN <<A("each"), A("assoc"), A("dim"), A("size")>> \o Per(1)
=============================================================================
