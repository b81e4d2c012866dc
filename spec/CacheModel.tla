----------------------------- MODULE CacheModel -----------------------------
(***************************************************************************)
(* CONTRACT of package cache: an instance is a capacity, a callback and    *)
(* the held entries <<key, value>>, most recently used first.              *)
(*                                                                         *)
(* The callback (field cb, with key ck) is one of                          *)
(*    none  nil                                                            *)
(*    log   records its arguments                                          *)
(*    get   also looks up key ck          rm    also removes key ck        *)
(*    own   also looks up its own key     rmown also removes its own key   *)
(* Its records are the result of the operation that evicted: per eviction  *)
(* <<key, value>>, followed, for get and own, by <<value, found>>.         *)
(***************************************************************************)
EXTENDS Common

S0 == EmptyFn

CHas(e, k) == \E x \in 1..Len(e) : e[x][1] = k
CAt(e, k)  == CHOOSE x \in 1..Len(e) : e[x][1] = k
CVal(e, k) == e[CAt(e, k)][2]
CDrop(e, k) == IF CHas(e, k) THEN LET x == CAt(e, k) IN SubSeq(e, 1, x - 1) \o SubSeq(e, x + 1, Len(e)) ELSE e
CUse(e, k)  == IF CHas(e, k) THEN <<<<k, CVal(e, k)>>>> \o CDrop(e, k) ELSE e
CRes(e, k)  == IF CHas(e, k) THEN <<CVal(e, k), 1>> ELSE <<0, 0>>

\* Effect of the callback for the entry <<k, v>>: <<entries, record>>.
CallBack(c, k, v) ==
  CASE c.cb = "none"  -> <<c.e, <<>>>>
    [] c.cb = "log"   -> <<c.e, <<k, v>>>>
    [] c.cb = "get"   -> <<CUse(c.e, c.ck), <<k, v>> \o CRes(c.e, c.ck)>>
    [] c.cb = "own"   -> <<CUse(c.e, k), <<k, v>> \o CRes(c.e, k)>>
    [] c.cb = "rm"    -> <<CDrop(c.e, c.ck), <<k, v>>>>
    [] c.cb = "rmown" -> <<CDrop(c.e, k), <<k, v>>>>

\* Evicts until at most n entries are held: <<cache, records>>.
RECURSIVE EvictTo(_, _, _)
EvictTo(c, n, rec) ==
  IF Len(c.e) <= n THEN <<c, rec>>
  ELSE LET v == c.e[Len(c.e)]
           x == CallBack(c, v[1], v[2])
       IN  EvictTo([c EXCEPT !.e = CDrop(x[1], v[1])], n, IF c.cb = "none" THEN rec ELSE Append(rec, x[2]))

PutC(c, k, v) ==
  IF CHas(c.e, k) THEN <<[c EXCEPT !.e = <<<<k, v>>>> \o CDrop(c.e, k)], <<>>>>
  ELSE IF c.cap = 0 THEN <<c, <<>>>>
  ELSE LET x == EvictTo(c, c.cap - 1, <<>>) IN <<[x[1] EXCEPT !.e = <<<<k, v>>>> \o @], x[2]>>

\* Puts of keys k, k+1, ... with values v, v+1, ...: <<cache, records>>.
RECURSIVE PutEach(_, _, _, _, _)
PutEach(c, k, v, n, rec) ==
  IF n = 0 THEN <<c, rec>> ELSE LET x == PutC(c, k, v) IN PutEach(x[1], k + 1, v + 1, n - 1, rec \o x[2])
Turned(q) == [x \in 1..Len(q) |-> q[Len(q) + 1 - x]]
\* In closed form when no key is held and the callback does nothing to the cache.
PutN(c, k, v, n) ==
  IF c.cb \in {"none", "log"} /\ c.cap > 0 /\ \A x \in 1..Len(c.e) : c.e[x][1] \notin k..(k + n - 1)
  THEN LET new  == [x \in 1..n |-> <<k + x - 1, v + x - 1>>]
           all  == Turned(new) \o c.e
           out  == MaxI(0, Len(all) - c.cap)
           gone == Turned(SubSeq(all, Len(all) - out + 1, Len(all)))
       IN  <<[c EXCEPT !.e = SubSeq(all, 1, Len(all) - out)], IF c.cb = "none" THEN <<>> ELSE gone>>
  ELSE PutEach(c, k, v, n, <<>>)

\* Lookups of keys k, k+1, ...: <<cache, values found>>.
GetN(c, k, n) ==
  LET val  == [kk \in {c.e[x][1] : x \in 1..Len(c.e)} \cap (k..(k + n - 1)) |-> CVal(c.e, kk)]
      hits == SelectSeq([x \in 1..n |-> k + x - 1], LAMBDA kk : kk \in DOMAIN val)
      used == [x \in 1..Len(hits) |-> <<hits[x], val[hits[x]]>>]
  IN  <<[c EXCEPT !.e = Turned(used) \o SelectSeq(@, LAMBDA y : y[1] \notin DOMAIN val)], used>>

\* What an operation does to one cache: <<cache, result>>.
Effect(c, o) ==
  CASE o.op = "get"    -> <<[c EXCEPT !.e = CUse(@, o.k)], CRes(c.e, o.k)>>
    [] o.op = "put"    -> PutC(c, o.k, o.v)
    [] o.op = "putn"   -> PutN(c, o.k, o.v, o.n)
    [] o.op = "getn"   -> GetN(c, o.k, o.n)
    [] o.op = "remove" -> <<[c EXCEPT !.e = CDrop(@, o.k)], <<>>>>
    [] o.op = "resize" -> EvictTo([c EXCEPT !.cap = o.n], o.n, <<>>)
    [] o.op = "setcb"  -> <<[c EXCEPT !.cb = o.cb, !.ck = o.ck], <<>>>>
    [] o.op = "size"   -> <<c, <<Len(c.e)>>>>
    [] o.op = "cap"    -> <<c, <<c.cap>>>>
    [] o.op = "each"   -> <<c, c.e>>

Post(s, o) ==
  CASE o.op = "reset" -> EmptyFn
    [] o.op = "new"   -> (o.i :> [cap |-> o.n, cb |-> "none", ck |-> 0, e |-> <<>>]) @@ s
    [] OTHER -> (o.i :> Effect(s[o.i], o)[1]) @@ s

Accept(s, o) == Returns(o) /\ (o.op \in {"reset", "new"} \/ o.r = Effect(s[o.i], o)[2])

\* Never more entries than the capacity, and never two for a key.
CacheInv(s) == \A i \in DOMAIN s : Len(s[i].e) <= s[i].cap /\ Cardinality({x[1] : x \in RangeOf(s[i].e)}) = Len(s[i].e)
=============================================================================
