---------------------------- MODULE MCPositional ----------------------------
EXTENDS Positional
SmallCap == 6
SmallTerms ==
    LeavesA
    \cup UnaryOn(LeavesA, 0..4)
    \cup UnaryOn(UnaryOn(Sets(\h3B1, {0, 1, 2}) \cup Ranges(\h3B1, {1, 2}, {None, FixZ}), {1, 2}), {0, 1, 3})
    \cup ChainsOf(Sets(\h3B1, 0..2) \cup {x \in Ranges(\h3B1, {1, 2}, {None}) : ~x.fixed}, Sets(\h4E00, 0..2))
SmallMaxima == {1, 3, 22}
=============================================================================
