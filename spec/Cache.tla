------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* DESIGN of cache/cache.go: a table from keys to list nodes and a linked  *)
(* list (LinkedList) with the most recently used entry in front.  The node *)
(* of key k is node k; a key removed and put again gets a new node, whose  *)
(* links are all set when it is pushed.                                    *)
(*   d: [m, val: key -> value, tab: keys in the table, cap, cb, ck]        *)
(***************************************************************************)
EXTENDS LinkedList

D0(n) == [m |-> NewList(Mem0, 1), val |-> EmptyFn, tab |-> {}, cap |-> n, cb |-> "none", ck |-> 0]

DTouch(d, k) == [d EXCEPT !.m = PushFrontNode(Unlink(@, 1, k), 1, k)]
DGet(d, k) == IF k \in d.tab THEN DTouch(d, k) ELSE d
DRes(d, k) == IF k \in d.tab THEN <<d.val[k], 1>> ELSE <<0, 0>>
DRemove(d, k) == IF k \in d.tab THEN [d EXCEPT !.m = Unlink(@, 1, k), !.tab = @ \ {k}, !.val = Without(@, k)] ELSE d

DCall(d, k, v) ==
  CASE d.cb \in {"none", "log"} -> <<d, <<k, v>>>>
    [] d.cb = "get"   -> <<DGet(d, d.ck), <<k, v>> \o DRes(d, d.ck)>>
    [] d.cb = "own"   -> <<DGet(d, k), <<k, v>> \o DRes(d, k)>>
    [] d.cb = "rm"    -> <<DRemove(d, d.ck), <<k, v>>>>
    [] d.cb = "rmown" -> <<DRemove(d, k), <<k, v>>>>

\* evict(): the victim is taken from the back of the list before the callback runs.
DEvict(d, rec) ==
  LET k == d.m.back[1]
      x == DCall(d, k, d.val[k])
  IN  <<DRemove(x[1], k), IF d.cb = "none" THEN rec ELSE Append(rec, x[2])>>

RECURSIVE DShrink(_, _)
DShrink(d, rec) ==
  IF Cardinality(d.tab) <= d.cap THEN <<d, rec>>
  ELSE LET x == DEvict(d, rec) IN DShrink(x[1], x[2])

DPut(d, k, v) ==
  IF k \in d.tab THEN <<[DTouch(d, k) EXCEPT !.val[k] = v], <<>>>>
  ELSE IF d.cap = 0 THEN <<d, <<>>>>
  ELSE LET x == IF Cardinality(d.tab) = d.cap THEN DEvict(d, <<>>) ELSE <<d, <<>>>>
           y == x[1]
       IN  <<[y EXCEPT !.m = PushFrontNode(@, 1, k), !.tab = @ \cup {k}, !.val = (k :> v) @@ @], x[2]>>

DResize(d, n) == DShrink([d EXCEPT !.cap = n], <<>>)
DList(d) == LET q == Fwd(d.m, 1) IN [x \in 1..Len(q) |-> <<q[x], d.val[q[x]]>>]
=============================================================================
