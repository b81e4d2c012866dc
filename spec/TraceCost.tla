------------------------------ MODULE TraceCost ------------------------------
EXTENDS CostModel
CONSTANT CheckOps
VARIABLES l, st
AcceptC(s, o) == IF o.op \in CheckOps THEN CAccept(s, o) ELSE Returns(o)
INSTANCE Conformance WITH S00 <- S0, Post0 <- CPost, Accept0 <- AcceptC
=============================================================================
