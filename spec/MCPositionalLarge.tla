------------------------- MODULE MCPositionalLarge --------------------------
(* A module of its own, because TLC evaluates every constant at the start. *)
EXTENDS MCPositional
Chains(ls) == ChainsOf(ls, LeavesB)
LargeTerms == SmallTerms \cup Chains(LeavesA) \cup UnaryOn(ChainsOf(Sets(\h3B1, 0..3), LeavesB), {2, 4}) \cup ChainsOf(UnaryOn(Sets(\h4E00, 0..2), {1}), LeavesA)
LargeMaxima == {1, 3, 7, 31}
=============================================================================
