----------------------------- MODULE MCAdditive -----------------------------
EXTENDS AdditiveMachine
SmallCap == 4
=============================================================================
