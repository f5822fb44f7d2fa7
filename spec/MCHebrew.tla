------------------------------ MODULE MCHebrew ------------------------------
EXTENDS HebrewMachine
SmallCap == 11
Small == {<<255, 0, 255>>} \cup {<<0, i * 150, i * 150 + 149>> : i \in 0..9}
Large == {<<255, 0, 255>>} \cup {<<0, i * 500, i * 500 + 499>> : i \in 0..19}
=============================================================================
