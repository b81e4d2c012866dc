----------------------------- MODULE TraceBimap -----------------------------
EXTENDS BimapModel
CONSTANT CheckOps
VARIABLES l, st
AcceptC(s, o) == IF o.op \in CheckOps THEN Accept(s, o) ELSE Returns(o)
INSTANCE Conformance WITH S00 <- S0, Post0 <- Post, Accept0 <- AcceptC
=============================================================================
