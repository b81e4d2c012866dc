-------------------------- MODULE TraceIntervalMap --------------------------
EXTENDS IntervalMap
CONSTANT CheckOps
VARIABLES l, st
AcceptC(s, o) == IF o.op \in CheckOps THEN Accept(s, o) ELSE IF Rejects(o) THEN Panics(o) ELSE Returns(o)
INSTANCE Conformance WITH S00 <- S0, Post0 <- Post, Accept0 <- AcceptC
=============================================================================
