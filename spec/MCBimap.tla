------------------------------ MODULE MCBimap -------------------------------
(***************************************************************************)
(* DESIGN of bimap/bimap.go: two maps, nil until the first Add, explored   *)
(* over keys and values 0..N-1 and NI instances.                           *)
(***************************************************************************)
EXTENDS BimapModel, Json
CONSTANTS N, NI, MaxInit, Window
VARIABLES d, s, ok, path

U == 0..(N-1)
B0 == [nil |-> TRUE, f |-> EmptyFn, r |-> EmptyFn]
DDel(m, x) == IF x \in DOMAIN m THEN Without(m, x) ELSE m

DAdd(b, k, v) ==
  LET r1 == IF k \in DOMAIN b.f THEN DDel(b.r, b.f[k]) ELSE b.r
      f1 == IF v \in DOMAIN r1 THEN DDel(b.f, r1[v]) ELSE b.f
  IN  [nil |-> FALSE, f |-> (k :> v) @@ f1, r |-> (v :> k) @@ r1]
DRmF(b, k) == IF k \in DOMAIN b.f THEN [b EXCEPT !.r = DDel(@, b.f[k]), !.f = DDel(@, k)] ELSE b
DRmR(b, v) == IF v \in DOMAIN b.r THEN [b EXCEPT !.f = DDel(@, b.r[v]), !.r = DDel(@, v)] ELSE b
DClear(b)  == [b EXCEPT !.f = EmptyFn, !.r = EmptyFn]
DCopy(b)   == [b EXCEPT !.nil = FALSE]

RECURSIVE DFill(_, _)
DFill(b, q) == IF q = <<>> THEN b ELSE DFill(DAdd(b, q[1][1], q[1][2]), SubSeq(q, 2, Len(q)))

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)

Maps == UNION {{ByKey({<<k, m[k]>> : k \in D}) : m \in [D -> U]} : D \in {D \in SUBSET U : Cardinality(D) <= MaxInit}}

Init == \/ /\ d = (1 :> B0)
           /\ s = (1 :> {})
           /\ ok = TRUE
           /\ path = <<[op |-> "new", i |-> 1, p |-> 0, r |-> <<>>]>>
           /\ Evaluated(<<d, s, path>>)
        \/ \E q \in Maps :
             LET o == [op |-> "of", i |-> 1, vals |-> q, p |-> 0, r |-> q] IN
             /\ OneToOne(PSet(q))
             /\ d = (1 :> DFill(B0, q))
             /\ s = Post(S0, o)
             /\ ok = Accept(S0, o)
             /\ path = <<o>>
             /\ Evaluated(<<d, s, path>>)

I1(op, i) == [op |-> op, i |-> i, p |-> 0, r |-> <<>>]
\* A given map that repeats a value: any of the permitted outcomes, and an end.
OfAny == Window > 0 /\ MaxInit > 0 /\ Len(path) = 1 /\ path[1].op = "new" /\ \E q \in Maps :
  /\ ~OneToOne(PSet(q))
  /\ LET o == [op |-> "of", i |-> 1, vals |-> q, p |-> 0, any |-> AsSeq({ByKey(S) : S \in OfResults(PSet(q))})] IN
     /\ d' = (1 :> B0)
     /\ s' = EmptyFn
     /\ ok' = (DFill(B0, q).f # EmptyFn /\ OfOK(PSet(q), {<<k, DFill(B0, q).f[k]>> : k \in DOMAIN DFill(B0, q).f}))
     /\ path' = Append(path, o)
     /\ Evaluated(<<d', s', path'>>)

Next == \/ \E i \in DOMAIN s :
             \/ \E k \in U, v \in U : Do([op |-> "add", i |-> i, k |-> k, v |-> v, p |-> 0, r |-> <<>>], (i :> DAdd(d[i], k, v)) @@ d)
             \/ \E k \in U : Do([op |-> "rmf", i |-> i, k |-> k, p |-> 0, r |-> <<>>], (i :> DRmF(d[i], k)) @@ d)
             \/ \E v \in U : Do([op |-> "rmr", i |-> i, v |-> v, p |-> 0, r |-> <<>>], (i :> DRmR(d[i], v)) @@ d)
             \/ Do(I1("clear", i), (i :> DClear(d[i])) @@ d)
             \/ \E j \in 1..NI : i # j /\ (j \in DOMAIN s \/ j = Cardinality(DOMAIN s) + 1)
                  /\ Do([op |-> "copy", i |-> i, j |-> j, p |-> 0, r |-> <<>>], (j :> DCopy(d[i])) @@ d)
        \/ OfAny

Recent == SubSeq(path, MaxI(1, Len(path) - Window + 1), Len(path))
View == <<d, ok, Recent>>

Refines ==
  /\ ok
  /\ \A i \in DOMAIN s :
       /\ OneToOne(s[i])
       /\ {<<k, d[i].f[k]>> : k \in DOMAIN d[i].f} = s[i]
       /\ {<<d[i].r[v], v>> : v \in DOMAIN d[i].r} = s[i]

RECURSIVE ObsAll(_)
ObsAll(I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE IN ObsBimap(s', i, 0..N) \o ObsAll(I \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(DOMAIN s')))
=============================================================================
