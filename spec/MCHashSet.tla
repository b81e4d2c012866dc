----------------------------- MODULE MCHashSet -----------------------------
(***************************************************************************)
(* All tables the hash map design reaches when it is used as a hash set    *)
(* over the elements 1..N, created from initial values (with repetitions); *)
(* with NI > 1, families of clones.  The behaviours run on hashset, mapset *)
(* and the Set wrapper over either.                                        *)
(***************************************************************************)
EXTENDS HashMap, SetModel, Json
CONSTANTS N, NI, Caps, Hashes, MaxInit
VARIABLES d, s, hf, ok, path

HF(n) ==
  CASE n = 1 -> [x \in 1..(N+2) |-> x]
    [] n = 2 -> [x \in 1..(N+2) |-> 0]
    [] n = 3 -> [x \in 1..(N+2) |-> -1]
    [] n = 4 -> [x \in 1..(N+2) |-> -((x % 3) + 1)]
    [] OTHER -> [x \in 1..(N+2) |-> (x % 2) * 7]

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ hf' = hf
  /\ Evaluated(<<d', s', path'>>)

RECURSIVE PutAll(_, _, _, _)
PutAll(st, i, q, h) == IF q = <<>> THEN st ELSE PutAll(Put(st, i, Head(q), 0, h), i, Tail(q), h)

Init ==
  \E c \in Caps, n \in Hashes, m \in 0..MaxInit : \E q \in [1..m -> 1..N] :
    LET o == [op |-> "new", i |-> 1, cap |-> c, h |-> HF(n), vals |-> q, p |-> 0, r |-> <<>>]
    IN  /\ hf = HF(n)
        /\ d = PutAll(NewMap([maps |-> EmptyFn, mem |-> EmptyFn], 1, c), 1, q, HF(n))
        /\ s = Post(S0, o)
        /\ ok = TRUE
        /\ path = <<o>>
        /\ Evaluated(<<hf, d, s, path>>)

DoPut(i, k)    == Do([op |-> "put", i |-> i, k |-> k, p |-> 0, r |-> <<>>], Put(d, i, k, 0, hf))
DoRemove(i, k) == Do([op |-> "remove", i |-> i, k |-> k, p |-> 0, r |-> <<>>], Rem(d, i, k, hf))
DoClear(i)     == Do([op |-> "clear", i |-> i, p |-> 0, r |-> <<>>], Clear(d, i))
DoClone(i, j)  == i # j /\ Do([op |-> "clone", i |-> i, j |-> j, p |-> 0, r |-> <<>>], Copy(d, i, j))

Next == \E i \in DOMAIN s :
          \/ \E k \in 1..N : DoPut(i, k) \/ DoRemove(i, k)
          \/ DoClear(i)
          \/ \E j \in 1..NI : (j \in DOMAIN s \/ j = Cardinality(DOMAIN s) + 1) /\ DoClone(i, j)

Keys(t) == [x \in DOMAIN t |-> IF t[x] = <<>> THEN 0 ELSE t[x][1]]
View == <<[i \in DOMAIN d.maps |-> <<Keys(d.mem[d.maps[i].arr]), d.maps[i].ro,
            {j \in DOMAIN d.maps : d.maps[j].arr = d.maps[i].arr}>>], hf, ok,
          IF Len(path) = 1 THEN path ELSE <<>>>>

Refines ==
  /\ ok
  /\ \A i \in DOMAIN s :
       /\ DOMAIN Content(d, i) = s[i]
       /\ d.maps[i].len = Cardinality(s[i])
       /\ \A k \in 0..(N+1) : Lookup(d, i, k, hf)[2] = B(k \in s[i])
ProbeInv == Reachable(d, hf)
ShareInv == NoSharedWrite(d)

RECURSIVE ObsAll(_)
ObsAll(I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE IN ObsSet(s', i, 0..(N+1), TRUE) \o ObsAll(I \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(DOMAIN s')))
=============================================================================
