--------------------------- MODULE TraceSeqModel ---------------------------
EXTENDS SeqModel
CONSTANT CheckOps
VARIABLES l, st
AcceptC(s, o) == IF o.op \in CheckOps THEN Accept(s, o) ELSE o.p = Answer(s, o)[1]
INSTANCE Conformance WITH S00 <- S0, Post0 <- Post, Accept0 <- AcceptC
=============================================================================
