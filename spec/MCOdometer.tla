----------------------------- MODULE MCOdometer -----------------------------
EXTENDS Odometer
Bare == {Set(Digits(65, k), TRUE) : k \in {2, 3, 5, 10, 16}} \cup {Set(Digits(65, k), FALSE) : k \in {1, 2, 3, 4, 14, 26}}
Terms == Bare \cup {One(x) : x \in Bare} \cup {FirstOf(x, 2) : x \in Bare}
         \cup ChainsOf(Sets(65, {1, 2}), Sets(97, {1, 3}))
Counting == {x \in Terms : CLen(x) > 1}
=============================================================================
