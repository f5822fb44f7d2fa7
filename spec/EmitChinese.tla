---------------------------- MODULE EmitChinese -----------------------------
(* Prints the numbers the Chinese model grows.                             *)
EXTENDS MCChinese, Json
Printed == PrintT("NUMBER " \o ToJson(n))
=============================================================================
