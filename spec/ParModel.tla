------------------------------ MODULE ParModel ------------------------------
(***************************************************************************)
(* CONTRACT of containers used from several goroutines at once: a step     *)
(*   [op |-> "par", ws |-> <<program, program, ...>>]                      *)
(* runs one program per goroutine.  The programs are separate: an instance *)
(* that one of them changes is not touched by any other.  Then the result  *)
(* of every step is what the program would get alone, and the contents     *)
(* afterwards are those of the programs run one after another.             *)
(***************************************************************************)
EXTENDS BigModel

Changing == {"fill", "of", "drain", "bfill", "bdrain", "clear", "popmin", "back", "front", "popf", "popb", "ins", "del", "insit", "delit", "cat",
             "dup", "cutl", "cutr", "union", "inter", "diff", "sym", "putn", "puto", "getn", "rmn", "resize", "rebuild", "rebal"}
Writes(o)  == IF o.op \in Changing THEN {Dst(o)} ELSE {}
Touches(o) == {o.i, Dst(o)} \cup (IF "a" \in DOMAIN o THEN {o.a} ELSE {})
WritesOf(q)  == UNION {Writes(q[x]) : x \in 1..Len(q)}
TouchesOf(q) == UNION {Touches(q[x]) : x \in 1..Len(q)}
Separate(ws) == \A p, q \in 1..Len(ws) : p # q => WritesOf(ws[p]) \cap TouchesOf(ws[q]) = {}

\* One program: <<contents after it, its results>>.
RECURSIVE RunProg(_, _, _), RunAll(_, _, _, _)
RunProg(s, q, out) == IF q = <<>> THEN <<s, out>> ELSE RunProg(Post(s, q[1]), Tail(q), Append(out, Answer(s, q[1])))
RunAll(s, ws, p, out) ==
  IF p > Len(ws) THEN <<s, out>>
  ELSE LET r == RunProg(s, ws[p], <<>>) IN RunAll(r[1], ws, p + 1, Append(out, r[2]))

\* One program's results are accepted if each is what the step may return.
RECURSIVE AccProg(_, _, _), AccAll(_, _, _, _)
AccProg(s, q, r) == IF q = <<>> THEN r = <<>>
                    ELSE r # <<>> /\ Accept(s, q[1] @@ [r |-> r[1], p |-> 0]) /\ AccProg(Post(s, q[1]), Tail(q), Tail(r))
AccAll(s, ws, r, p) == IF p > Len(ws) THEN TRUE ELSE AccProg(s, ws[p], r[p]) /\ AccAll(RunProg(s, ws[p], <<>>)[1], ws, r, p + 1)

PPost(s, o)   == IF o.op = "par" THEN RunAll(s, o.ws, 1, <<>>)[1] ELSE Post(s, o)
PAccept(s, o) == IF o.op = "par" THEN Returns(o) /\ Separate(o.ws) /\ Len(o.r) = Len(o.ws) /\ AccAll(s, o.ws, o.r, 1) ELSE Accept(s, o)
=============================================================================
