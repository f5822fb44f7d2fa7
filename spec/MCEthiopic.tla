----------------------------- MODULE MCEthiopic -----------------------------
EXTENDS EthiopicMachine
SmallCap == 13
=============================================================================
