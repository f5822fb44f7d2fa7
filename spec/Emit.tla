-------------------------------- MODULE Emit --------------------------------
(* Prints the collections of the Positional model for the runner, which    *)
(* puts every one of them, with every number of the model, to the crate.   *)
EXTENDS MCPositional, Json
ASSUME \A x \in SmallTerms : PrintT("TERM " \o ToJson(x))
=============================================================================
