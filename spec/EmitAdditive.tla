---------------------------- MODULE EmitAdditive ----------------------------
(* Prints every sequence of values the Additive model offers.              *)
EXTENDS MCAdditive, Json
Printed == pc = "new" /\ k = 1 => PrintT("VALUES " \o ToJson(vals))
Offered == Init /\ [][FALSE]_vars
=============================================================================
