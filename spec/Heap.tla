-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* DESIGN of heap/heap.go: a binary heap in an array (here 1-based) with   *)
(* sifting up and down.                                                    *)
(***************************************************************************)
EXTENDS Common

HSwap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
HLess(a, b) == a[1] < b[1]

RECURSIVE Down(_, _)
Down(h, i) ==
  LET l == 2 * i
      r == l + 1
  IN  IF l > Len(h) THEN h
      ELSE LET j == IF r <= Len(h) /\ HLess(h[r], h[l]) THEN r ELSE l IN
           IF ~HLess(h[j], h[i]) THEN h ELSE Down(HSwap(h, i, j), j)

RECURSIVE Up(_, _)
Up(h, i) == IF i = 1 \/ ~HLess(h[i], h[i \div 2]) THEN h ELSE Up(HSwap(h, i, i \div 2), i \div 2)

RECURSIVE Heapify(_, _)
Heapify(h, i) == IF i = 0 THEN h ELSE Heapify(Down(h, i), i - 1)
HOf(q) == Heapify(q, Len(q) \div 2)

HPush(h, x) == Up(Append(h, x), Len(h) + 1)
HPop(h) ==
  IF h = <<>> THEN h
  ELSE Down(SubSeq([h EXCEPT ![1] = h[Len(h)]], 1, Len(h) - 1), 1)
HRes(h) == IF h = <<>> THEN <<0, 0, 0>> ELSE <<h[1][1], h[1][2], 1>>

HeapOrder(h) == \A i \in 2..Len(h) : ~HLess(h[i], h[i \div 2])
=============================================================================
