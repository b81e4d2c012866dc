------------------------------ MODULE TracePar ------------------------------
EXTENDS ParModel
CONSTANT CheckOps
VARIABLES l, st
AcceptC(s, o) == IF o.op \in CheckOps THEN PAccept(s, o) ELSE Returns(o)
INSTANCE Conformance WITH S00 <- S0, Post0 <- PPost, Accept0 <- AcceptC
=============================================================================
