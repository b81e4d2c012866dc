------------------------------- MODULE MCSpace -------------------------------
(***************************************************************************)
(* DESIGN of how much room containers take up.  Contents are n groups of G *)
(* entries, peak the most there ever were.  room is what is reserved:      *)
(*   "table"  slots, doubled when half full, halved when an eighth full    *)
(*   "slice"  elements, doubled when full, never given back                *)
(*   "nodes"  one for each group, given back                               *)
(*   "tombs"  one for each group ever put, given back only by clearing     *)
(* Lean: room is bounded by the peak.  Tombs break it; containers built    *)
(* like that (B-trees) are not part of the property.                       *)
(*   On the code, from every state entries come and go, Turns times in one *)
(* place or another, and the memory still reachable afterwards is compared.*)
(***************************************************************************)
EXTENDS CostModel, Json
CONSTANTS Kind, Scheme, N, G, Turns, Rep
VARIABLES n, peak, room, top, last, hist, s

Type == CASE Kind \in {"map", "heap"} -> "map" [] Kind = "lru" -> "lru" [] OTHER -> "seq"
Step(o) == o @@ [i |-> 1, p |-> 0, r |-> <<>>]
Init == /\ n = 0 /\ peak = 0 /\ room = 1 /\ top = 100 /\ last = ""
        /\ hist = (IF Kind = "rope" THEN <<Step([op |-> "conf", sl |-> 64, jl |-> 32, rr |-> 12])>> ELSE <<>>) \o
                  <<Step([op |-> "new", t |-> Type, c |-> IF Type = "lru" THEN 3 * N * G ELSE 4])>>
        /\ s = Post(S0, hist[Len(hist)])
        /\ Evaluated(<<s, hist>>)

\* Ways to add a group after those there are, and before them.
Key(g) == [k |-> g * G, n |-> G]
Add(g) == CASE Type = "map"  -> Key(g) @@ [op |-> "fill", v |-> g * G, how |-> g % 3]
            [] Type = "lru"  -> Key(g) @@ [op |-> "putn", v |-> g * G]
            [] Kind = "rope" -> [op |-> "ins", pos |-> n * G, n |-> G, v |-> 0]
            [] OTHER         -> [op |-> "back", n |-> G, v |-> 0]
Low == top - n
Del(old) == CASE Kind = "map"   -> Key(IF old THEN Low ELSE top - 1) @@ [op |-> "drain", how |-> n % 3]
              [] Kind = "lru"   -> Key(IF old THEN Low ELSE top - 1) @@ [op |-> "rmn", how |-> n % 3]
              [] Kind = "heap"  -> [op |-> "popmin", n |-> G]
              [] Kind = "delit" -> [op |-> "delit", pos |-> IF old THEN 0 ELSE (n - 1) * G, n |-> G]
              [] Kind \in {"del", "rope"} -> [op |-> "del", pos |-> IF old THEN 0 ELSE (n - 1) * G, n |-> G]
              [] OTHER          -> [op |-> Kind, n |-> G]

Room(m, up) ==
  CASE Scheme = "table" -> IF up /\ 2 * n >= room THEN 2 * room ELSE IF ~up /\ m > 0 /\ 8 * m <= room THEN room \div 2 ELSE room
    [] Scheme = "slice" -> IF up /\ n >= room THEN 2 * room ELSE room
    [] Scheme = "nodes" -> m + 1
    [] Scheme = "tombs" -> IF up THEN room + 1 ELSE room
Do(o, m, t) == /\ n' = m /\ peak' = MaxI(peak, m) /\ room' = Room(m, m > n) /\ top' = t /\ last' = o.op
               /\ hist' = Append(hist, Step(o)) /\ s' = Post(s, Step(o))
Next == /\ \/ n < N /\ Do(Add(top), n + 1, top + 1)
           \/ n > 0 /\ Kind \notin {"popb"} /\ Do(Del(TRUE), n - 1, top)
           \/ n > 0 /\ Kind \notin {"popf", "heap"} /\ Do(Del(FALSE), n - 1, top - 1)
        /\ Evaluated(<<s', hist'>>)
View == <<n, peak, room, last>>

Agree == RSize(s[1].R) = n * G
Lean  == room <= 4 * MaxI(peak, 1)

\* A turn leaves the contents as they are.
Group(x) == CASE Kind = "heap" -> top' - n' - x [] OTHER -> top' + x - 1
Plus(x) == CASE Kind = "rope" -> [op |-> "ins", pos |-> (x * 37) % (n' * G + 1), n |-> G, v |-> 0] [] OTHER -> Add(Group(x))
Less(x) == CASE Kind = "map"  -> Key(Group(x)) @@ [op |-> "drain", how |-> (x + 1) % 3]
             [] Kind = "lru"  -> Key(Group(x)) @@ [op |-> "rmn", how |-> 0]
             [] Kind = "rope" -> [op |-> "del", pos |-> (x * 37) % (n' * G + 1), n |-> G]
             [] Kind = "delit" -> [op |-> "delit", pos |-> (x % (n' + 1)) * G, n |-> G]
             [] Kind = "del"   -> [op |-> "del", pos |-> (x % (n' + 1)) * G, n |-> G]
             [] OTHER -> Del(TRUE)
RECURSIVE Churn(_)
Churn(x) == IF x = 0 THEN <<>> ELSE Churn(x - 1) \o <<[i |-> 1] @@ Plus(x), [i |-> 1] @@ Less(x)>>
Live == LET o == [op |-> "live", b |-> Kind, rep |-> Rep, qs |-> Churn(Turns)] IN
        IF Repeatable(s', o) THEN Step(o @@ [lim |-> LiveBound(s', o)] @@ [r |-> <<1>>]) ELSE Assert(FALSE, <<"not repeatable", o>>)
Emit == PrintT(ToJson(hist' \o <<Live>> \o
                      (IF Kind \in {"popb"} THEN <<>> ELSE <<Step([op |-> IF Kind = "heap" THEN "size" ELSE "runs", r |-> IF Kind = "heap" THEN <<n' * G>> ELSE s'[1].R])>>)))
=============================================================================
