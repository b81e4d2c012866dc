---------------------------- MODULE Conformance ----------------------------
(***************************************************************************)
(* Trace validation: the recorded steps of the real code must be a         *)
(* behaviour of the contract whose Post and Accept are plugged in.  The    *)
(* trace file is named by the environment and kept in a TLC register       *)
(* (register 1), because it is read once and indexed at every step.        *)
(* A rejected step leaves no successor state, so the run ends there.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS S00, Post0(_, _), Accept0(_, _)
VARIABLES l, st

TInit == /\ TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
         /\ l = 1
         /\ st = S00

TNext ==
  LET tr == TLCGet(1) IN
  /\ l <= Len(tr)
  /\ LET o == tr[l] IN
       /\ IF Accept0(st, o) THEN TRUE ELSE PrintT(<<"REJECTED", l>>) /\ FALSE
       /\ st' = Post0(st, o)
  /\ l' = l + 1

\* There is one state per step, so its number identifies it.
TView == l

TAccepted ==
  PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, Len(TLCGet(1))>>)
=============================================================================
