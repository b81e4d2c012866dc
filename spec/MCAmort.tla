------------------------------- MODULE MCAmort -------------------------------
(***************************************************************************)
(* DESIGN of when the hash table moves its entries: it doubles when half   *)
(* full and halves when an eighth full.  Every operation pays Fee, moving  *)
(* an entry costs 1; balance is what has been saved (at most Cap).         *)
(* Paid: the savings always cover the cost, so that the work per operation *)
(* is constant in the long run although single operations move everything; *)
(* with ShrinkAt = 4 (halving when a quarter full) Paid fails.             *)
(*   On the code, one abstract entry is G real ones.  From every state the *)
(* real map then alternates insertions and removals of one entry, on which *)
(* a table that grows and shrinks in turn would spend Rounds * size moves. *)
(***************************************************************************)
EXTENDS CostModel, Json
CONSTANTS N, G, Starts, Fee, Cap, ShrinkAt, Rounds
VARIABLES cap, len, balance, hist, s

Ceil2 == [n \in 0..4096 |-> CHOOSE p \in {2^e : e \in 0..12} : p >= n /\ p >= 1 /\ \A q \in {2^e : e \in 0..12} : q >= n => q >= p]
Init == /\ cap \in {Ceil2[c] : c \in Starts} /\ len = 0 /\ balance = 0
        /\ hist = <<[op |-> "new", i |-> 1, t |-> "map", c |-> cap * G, p |-> 0, r |-> <<>>]>>
        /\ s = Post(S0, hist[1])
        /\ Evaluated(<<s, hist>>)

Do(op, k) == LET o == [op |-> op, i |-> 1, k |-> k, n |-> G, v |-> k, how |-> 0, p |-> 0, r |-> <<>>]
             IN hist' = Append(hist, o) /\ s' = Post(s, o)
Settle(cost) == balance' = MinI(Cap, balance + Fee - cost)
Put == /\ len < N
       /\ LET grown == len >= cap \div 2 IN
            /\ cap' = IF grown THEN cap * 2 ELSE cap
            /\ Settle(IF grown THEN len ELSE 0)
       /\ len' = len + 1 /\ Do("fill", len * G)
Remove == /\ len > 0
          /\ LET m == len - 1 shrunk == m > 0 /\ m <= cap \div ShrinkAt IN
               /\ cap' = IF shrunk THEN cap \div 2 ELSE cap
               /\ Settle(IF shrunk THEN m ELSE 0)
          /\ len' = len - 1 /\ Do("drain", (len - 1) * G)
Next == (Put \/ Remove) /\ Evaluated(<<s', hist'>>)
View == <<cap, len, balance>>

Agree == RSize(s[1].R) = len * G
Paid  == balance >= 0

RECURSIVE Turns(_, _, _)
Turns(n, a, b) == IF n = 0 THEN <<>> ELSE <<a, b>> \o Turns(n - 1, a, b)
One(op, k) == [op |-> op, i |-> 1, k |-> k, n |-> 1, v |-> k, how |-> 0]
Work(qs) == [op |-> "calls", b |-> "hash", lim |-> Bound(s', [op |-> "calls", b |-> "hash", qs |-> qs]), qs |-> qs, p |-> 0, r |-> <<1>>]
Emit == LET m == len' * G IN
        PrintT(ToJson(hist' \o <<Work(Turns(Rounds, One("fill", m), One("drain", m)))>> \o
                      (IF m > 0 THEN <<Work(Turns(Rounds, One("drain", m - 1), One("fill", m - 1)))>> ELSE <<>>) \o
                      <<[op |-> "size", i |-> 1, p |-> 0, r |-> <<m>>], [op |-> "runs", i |-> 1, p |-> 0, r |-> s'[1].R]>>))
=============================================================================
