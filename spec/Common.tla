------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Vocabulary shared by all specifications of this directory.              *)
(*                                                                         *)
(* A *step* is a record: field op names the operation, further fields are  *)
(* its arguments, r is its result (a sequence of integers or of sequences) *)
(* and p tells how it ended: 0 returned, 1 panicked, 2 did not terminate,  *)
(* 3 crashed the process.  The same records are written by TLC when it     *)
(* generates behaviours for the real code and by the recorder that logs    *)
(* what the real code did.                                                 *)
(*                                                                         *)
(* Every contract module provides                                          *)
(*    S0          the initial system state: no instance exists             *)
(*    Post(s,o)   the system state after step o                            *)
(*    Accept(s,o) whether step o, with result o.r and ending o.p, is       *)
(*                allowed in state s                                       *)
(* Instances of the structure under study are numbered by field i.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL SX == INSTANCE SequencesExt
LOCAL TX == INSTANCE TLCExt

\* Always true; makes TLC evaluate v completely.  Without it, variables that
\* a VIEW hides stay lazy values, which TLC's workers then race to evaluate.
Evaluated(v) == TX!TLCFP(v) \in Int

EmptyFn == [x \in {} |-> 0]

Returns(o) == o.p = 0
Panics(o)  == o.p = 1

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
B(x) == IF x THEN 1 ELSE 0
RangeOf(f) == {f[x] : x \in DOMAIN f}
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

\* The elements of a finite set of integers in increasing order.
Sorted(S) == SX!SetToSortSeq(S, LAMBDA a, b : a < b)
\* The elements of a finite set in some order.
AsSeq(S) == SX!SetToSeq(S)

SubSeqX(s, a, b) == SubSeq(s, a + 1, b)   \* half-open, zero-based [a, b)
=============================================================================
