-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* DESIGN of trie/trie.go: a ternary search tree.  A tree is Nil or a node *)
(* [c, left, mid, right, val, valid]; a key ends at the node of its last   *)
(* byte.  Removal unlinks nodes that are no longer used, taking the        *)
(* smallest node of the right subtree into the place of a node with two    *)
(* siblings (Hibbard deletion).                                            *)
(***************************************************************************)
EXTENDS Common

Nil == <<>>
TNode(c) == [c |-> c, left |-> Nil, mid |-> Nil, right |-> Nil, val |-> 0, valid |-> FALSE]

RECURSIVE TPut(_, _, _, _)
TPut(x0, key, v, n) ==
  LET c == key[n]
      x == IF x0 = Nil THEN TNode(c) ELSE x0
  IN  IF c < x.c THEN [x EXCEPT !.left = TPut(@, key, v, n)]
      ELSE IF c > x.c THEN [x EXCEPT !.right = TPut(@, key, v, n)]
      ELSE IF n < Len(key) THEN [x EXCEPT !.mid = TPut(@, key, v, n + 1)]
      ELSE [x EXCEPT !.val = v, !.valid = TRUE]

RECURSIVE TMin(_)
TMin(x) == IF x.left = Nil THEN x ELSE TMin(x.left)
RECURSIVE TDelMin(_)
TDelMin(x) == IF x.left = Nil THEN x.right ELSE [x EXCEPT !.left = TDelMin(@)]
TUnlink(x) ==
  IF x.right = Nil THEN x.left
  ELSE IF x.left = Nil THEN x.right
  ELSE [TMin(x.right) EXCEPT !.right = TDelMin(x.right), !.left = x.left]

RECURSIVE TRem(_, _, _)
TRem(x, key, n) ==
  LET c == key[n]
      y == IF c < x.c THEN [x EXCEPT !.left = TRem(@, key, n)]
           ELSE IF c > x.c THEN [x EXCEPT !.right = TRem(@, key, n)]
           ELSE IF n < Len(key) THEN [x EXCEPT !.mid = TRem(@, key, n + 1)]
           ELSE [x EXCEPT !.val = 0, !.valid = FALSE]
  IN  IF ~y.valid /\ y.mid = Nil THEN TUnlink(y) ELSE y

RECURSIVE TGet(_, _, _)
TGet(x, key, n) ==
  IF x = Nil \/ key = <<>> THEN Nil
  ELSE IF key[n] < x.c THEN TGet(x.left, key, n)
  ELSE IF key[n] > x.c THEN TGet(x.right, key, n)
  ELSE IF n < Len(key) THEN TGet(x.mid, key, n + 1)
  ELSE x
THas(x, key) == LET y == TGet(x, key, 1) IN y # Nil /\ y.valid

\* The keys in the order collect visits them.
RECURSIVE TKeys(_, _)
TKeys(x, pre) ==
  IF x = Nil THEN <<>>
  ELSE TKeys(x.left, pre) \o (IF x.valid THEN <<Append(pre, x.c)>> ELSE <<>>)
       \o TKeys(x.mid, Append(pre, x.c)) \o TKeys(x.right, pre)
TPrefix(x, pre) ==
  IF pre = <<>> THEN TKeys(x, <<>>)
  ELSE LET y == TGet(x, pre, 1) IN
       IF y = Nil THEN <<>> ELSE (IF y.valid THEN <<pre>> ELSE <<>>) \o TKeys(y.mid, pre)
RECURSIVE TLong(_, _, _, _)
TLong(x, q, n, best) ==
  IF x = Nil \/ n > Len(q) THEN SubSeq(q, 1, best)
  ELSE IF q[n] < x.c THEN TLong(x.left, q, n, best)
  ELSE IF q[n] > x.c THEN TLong(x.right, q, n, best)
  ELSE TLong(x.mid, q, n + 1, IF x.valid THEN n ELSE best)

RECURSIVE TShape(_)
TShape(x) == IF x = Nil THEN Nil ELSE <<x.c, TShape(x.left), TShape(x.mid), TShape(x.right), x.valid>>
RECURSIVE NoDeadNodes(_)
NoDeadNodes(x) == x = Nil \/ ((x.valid \/ x.mid # Nil) /\ NoDeadNodes(x.left) /\ NoDeadNodes(x.mid) /\ NoDeadNodes(x.right))
=============================================================================
