----------------------------- MODULE MCHashMap -----------------------------
(***************************************************************************)
(* All tables (and, with NI > 1, all families of copies) the hash map      *)
(* design reaches over the keys 1..N, for several hash functions and       *)
(* initial capacities.                                                     *)
(***************************************************************************)
EXTENDS HashMap, OrderedMap, Json
CONSTANTS N, NI, Caps, Hashes
VARIABLES d, s, hf, ok, path

\* Hash functions over the keys 0..N+1, as sequences.  -1 stands for the
\* greatest 64-bit value: its home slot is the last one of every table.
HF(n) ==
  CASE n = 1 -> [x \in 1..(N+2) |-> x]                     \* identity
    [] n = 2 -> [x \in 1..(N+2) |-> 0]                     \* all collide
    [] n = 3 -> [x \in 1..(N+2) |-> -1]                    \* all collide and wrap
    [] n = 4 -> [x \in 1..(N+2) |-> -((x % 3) + 1)]        \* neighbours at the end
    [] n = 5 -> [x \in 1..(N+2) |-> (x % 2) * 7]           \* two homes
    [] n = 6 -> [x \in 1..(N+2) |-> IF x <= 3 THEN 3 ELSE 15 * x]
    [] OTHER -> [x \in 1..(N+2) |-> 4 * x]                 \* differ in high bits only

Do(o, d2) ==
  /\ d' = d2
  /\ s' = Post(s, o)
  /\ ok' = Accept(s, o)
  /\ path' = Append(path, o)
  /\ Evaluated(<<d', s', path'>>)
  /\ hf' = hf
Fresh == Len(path) + 100

Init ==
  \E c \in Caps, n \in Hashes :
    LET o == [op |-> "new", i |-> 1, cap |-> c, h |-> HF(n), p |-> 0, r |-> <<>>]
    IN  /\ hf = HF(n)
        /\ d = NewMap([maps |-> EmptyFn, mem |-> EmptyFn], 1, c)
        /\ s = Post(S0, o)
        /\ ok = TRUE
        /\ path = <<o>>
        /\ Evaluated(<<hf, d, s, path>>)

DoPut(i, k)    == Do([op |-> "put", i |-> i, k |-> k, v |-> Fresh, p |-> 0, r |-> <<>>], Put(d, i, k, Fresh, hf))
DoRemove(i, k) == Do([op |-> "remove", i |-> i, k |-> k, p |-> 0, r |-> <<>>], Rem(d, i, k, hf))
DoClear(i)     == Do([op |-> "clear", i |-> i, p |-> 0, r |-> <<>>], Clear(d, i))
DoCopy(i, j)   == i # j /\ Do([op |-> "copy", i |-> i, j |-> j, p |-> 0, r |-> <<>>], Copy(d, i, j))

Next == \E i \in DOMAIN s :
          \/ \E k \in 1..N : DoPut(i, k) \/ DoRemove(i, k)
          \/ DoClear(i)
          \/ \E j \in 1..NI : (j \in DOMAIN s \/ j = Cardinality(DOMAIN s) + 1) /\ DoCopy(i, j)

Keys(t) == [x \in DOMAIN t |-> IF t[x] = <<>> THEN 0 ELSE t[x][1]]
\* Up to the numbering of the arrays and the values.
View == <<[i \in DOMAIN d.maps |-> <<Keys(d.mem[d.maps[i].arr]), d.maps[i].ro,
            {j \in DOMAIN d.maps : d.maps[j].arr = d.maps[i].arr}>>], hf, ok>>

Refines ==
  /\ ok
  /\ DOMAIN d.maps = DOMAIN s
  /\ \A i \in DOMAIN s :
       /\ Content(d, i) = s[i]
       /\ d.maps[i].len = Cardinality(DOMAIN s[i])
       /\ \A k \in 0..(N+1) : Lookup(d, i, k, hf) = GetRes(s[i], k)
ProbeInv == Reachable(d, hf)
ShareInv == NoSharedWrite(d)

RECURSIVE ObsAll(_)
ObsAll(I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : TRUE IN ObsMap(s', i, 0..(N+1)) \o ObsAll(I \ {i})
Emit == PrintT(ToJson(path' \o ObsAll(DOMAIN s')))
=============================================================================
