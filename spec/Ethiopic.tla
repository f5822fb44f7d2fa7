------------------------------ MODULE Ethiopic ------------------------------
(***************************************************************************)
(* Ethiopic numerals, after the algorithm of CSS Counter Styles Level 3,   *)
(* section 7.2: two-digit groups, indexed from 0 at the least significant. *)
(***************************************************************************)
EXTENDS BigNat, Outcome

EthOne(d) == \h1368 + d          \* 1..9  -> U+1369..
EthTen(d) == \h1371 + d          \* 10..90 -> U+1372..
EthHundred == \h137B
EthMyriad  == \h137C

(* Value of group i. *)
Group(n, i) ==
    LET limb == Len(n) - (i \div 2) IN
    IF limb < 1 THEN 0 ELSE IF i % 2 = 0 THEN n[limb] % 100 ELSE n[limb] \div 100
GroupCount(n) == IF n = <<>> THEN 0 ELSE 2 * Len(n) - (IF n[1] < 100 THEN 1 ELSE 0)

GroupText(n, i) ==
    LET g == Group(n, i)
        top == GroupCount(n) - 1
        silent == g = 0 \/ (g = 1 /\ i > 0 /\ (i % 2 = 1 \/ i = top))
        tens == IF g \div 10 = 0 THEN <<>> ELSE <<EthTen(g \div 10)>>
        ones == IF g % 10 = 0 THEN <<>> ELSE <<EthOne(g % 10)>>
        sep == IF i = 0 THEN <<>>
               ELSE IF i % 2 = 0 THEN <<EthMyriad>>
               ELSE IF g = 0 THEN <<>> ELSE <<EthHundred>>
    IN  (IF silent THEN <<>> ELSE tens \o ones) \o sep

EthiopicOutcome(n) ==
    IF IsZero(n) THEN NoZero
    ELSE LET k == GroupCount(n) IN
         Ok(Concat([j \in 1..k |-> GroupText(n, k - j)]))
=============================================================================
