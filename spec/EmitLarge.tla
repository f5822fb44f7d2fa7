------------------------------ MODULE EmitLarge -----------------------------
EXTENDS MCPositionalLarge, Json
ASSUME \A x \in LargeTerms : PrintT("TERM " \o ToJson(x))
=============================================================================
