------------------------------ MODULE HashMap ------------------------------
(***************************************************************************)
(* DESIGN of package hashmap: open addressing with linear probing in a     *)
(* table that doubles and halves, and copies that share the table until    *)
(* one of them writes.  State st: maps gives for every instance the array  *)
(* it uses, capacity, length and the readonly flag; mem holds the arrays.  *)
(* A slot is <<>> or <<key, value>>.  hf[k+1] is the hash of key k.        *)
(***************************************************************************)
EXTENDS Common

RECURSIVE Probe(_, _, _, _), FillFrom(_, _, _, _, _), Settle(_, _, _, _), Pow2(_, _)

Pow2(p, c) == IF p >= c THEN p ELSE Pow2(2 * p, c)
CapOf(c) == Pow2(1, MaxI(c, 1))
EmptyTab(c) == [x \in 0..(c-1) |-> <<>>]

\* the slot that holds k, or the empty slot where the probe ends
Probe(t, c, x, k) == IF t[x] = <<>> \/ t[x][1] = k THEN x ELSE Probe(t, c, (x + 1) % c, k)
Slot(t, c, hf, k) == Probe(t, c, hf[k+1] % c, k)

Store(t, c, hf, k, v) == [t EXCEPT ![Slot(t, c, hf, k)] = <<k, v>>]
FillFrom(t, c, hf, old, x) ==
  IF x \notin DOMAIN old THEN t
  ELSE FillFrom(IF old[x] = <<>> THEN t ELSE Store(t, c, hf, old[x][1], old[x][2]), c, hf, old, x + 1)
Resized(t, c, hf) == FillFrom(EmptyTab(c), c, hf, t, 0)

\* re-insert the entries of the cluster that follows a hole
Settle(t, c, hf, x) ==
  IF t[x] = <<>> THEN t
  ELSE Settle(Store([t EXCEPT ![x] = <<>>], c, hf, t[x][1], t[x][2]), c, hf, (x + 1) % c)

\* Arrays nobody uses are forgotten.
Gc(st) == [st EXCEPT !.mem = [a \in {st.maps[i].arr : i \in DOMAIN st.maps} |-> st.mem[a]]]
FreshArr(st) == CHOOSE a \in 1..(Cardinality(DOMAIN st.mem) + 1) : a \notin DOMAIN st.mem /\ \A b \in 1..(a-1) : b \in DOMAIN st.mem
Own(st, i, m, t) ==
  LET a == FreshArr(st)
  IN  Gc([maps |-> (i :> [m EXCEPT !.arr = a]) @@ st.maps, mem |-> (a :> t) @@ st.mem])
InPlace(st, i, m, t) == [maps |-> (i :> m) @@ st.maps, mem |-> (m.arr :> t) @@ st.mem]

NewMap(st, i, cap) == Own(st, i, [arr |-> 0, cap |-> CapOf(cap), len |-> 0, ro |-> FALSE], EmptyTab(CapOf(cap)))

Put(st, i, k, v, hf) ==
  LET m == st.maps[i]
      grow == m.len >= m.cap \div 2
      c == IF grow THEN 2 * m.cap ELSE m.cap
      t == IF grow THEN Resized(st.mem[m.arr], c, hf) ELSE st.mem[m.arr]
      added == B(t[Slot(t, c, hf, k)] = <<>>)
      t2 == Store(t, c, hf, k, v)
      m2 == [m EXCEPT !.cap = c, !.len = @ + added]
  IN  CASE grow -> Own(st, i, m2, t2)
        [] m.ro -> Own(st, i, [m2 EXCEPT !.ro = FALSE], t2)
        [] OTHER -> InPlace(st, i, m2, t2)

Rem(st, i, k, hf) ==
  LET m == st.maps[i]
      t == st.mem[m.arr]
      x == Slot(t, m.cap, hf, k)
      t2 == Settle([t EXCEPT ![x] = <<>>], m.cap, hf, (x + 1) % m.cap)
      m2 == [m EXCEPT !.len = @ - 1, !.ro = FALSE]
      st2 == IF m.ro THEN Own(st, i, m2, t2) ELSE InPlace(st, i, m2, t2)
      shrink == m2.len > 0 /\ m2.len <= m.cap \div 8
  IN  IF t[x] = <<>> THEN st
      ELSE IF shrink THEN Own(st2, i, [st2.maps[i] EXCEPT !.cap = m.cap \div 2], Resized(t2, m.cap \div 2, hf))
      ELSE st2

Clear(st, i) ==
  LET m == st.maps[i] IN
  IF m.ro THEN Own(st, i, [m EXCEPT !.len = 0, !.ro = FALSE], EmptyTab(m.cap))
  ELSE InPlace(st, i, [m EXCEPT !.len = 0], EmptyTab(m.cap))

Copy(st, i, j) ==
  LET m == [st.maps[i] EXCEPT !.ro = TRUE]
  IN  Gc([st EXCEPT !.maps = (i :> m) @@ (j :> m) @@ st.maps])

Lookup(st, i, k, hf) ==
  LET m == st.maps[i]
      t == st.mem[m.arr]
      x == Slot(t, m.cap, hf, k)
  IN  IF t[x] = <<>> THEN <<0, 0>> ELSE <<t[x][2], 1>>

Content(st, i) ==
  LET t == st.mem[st.maps[i].arr]
      S == {t[x][1] : x \in {y \in DOMAIN t : t[y] # <<>>}}
  IN  [k \in S |-> t[CHOOSE x \in DOMAIN t : t[x] # <<>> /\ t[x][1] = k][2]]

\* ---- what makes the design work --------------------------------------
\* Probing finds every entry: no hole between a key's home and its slot.
Reachable(st, hf) ==
  \A i \in DOMAIN st.maps :
    LET m == st.maps[i]
        t == st.mem[m.arr]
        used == {x \in DOMAIN t : t[x] # <<>>}
    IN  /\ DOMAIN t = 0..(m.cap - 1)
        /\ m.len = Cardinality(used)
        /\ m.len < m.cap                          \* probes end
        /\ \A x, y \in used : x # y => t[x][1] # t[y][1]
        /\ \A x \in used : Slot(t, m.cap, hf, t[x][1]) = x
\* Tables are shared only between maps that copy before they write.
NoSharedWrite(st) ==
  \A i, j \in DOMAIN st.maps : i # j /\ st.maps[i].arr = st.maps[j].arr => st.maps[i].ro /\ st.maps[j].ro
=============================================================================
