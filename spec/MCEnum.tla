------------------------------- MODULE MCEnum -------------------------------
EXTENDS EnumMachine
SmallCap == 4
=============================================================================
