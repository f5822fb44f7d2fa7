------------------------------ MODULE MCHistory ------------------------------
EXTENDS HistoryMachine
=============================================================================
