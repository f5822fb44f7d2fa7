---------------------------- MODULE EmitEthiopic ----------------------------
(* Prints the numbers the Ethiopic model grows.                            *)
EXTENDS MCEthiopic, Json, TLC
Grown == Init /\ [][groups < Groups /\ (\E g \in GroupSet : n' = MulAdd(n, 100, g)) /\ groups' = groups + 1
                    /\ UNCHANGED <<alloc, pc, rem, index, out, answer>>]_vars
Printed == PrintT("NUMBER " \o ToJson(n))
=============================================================================
