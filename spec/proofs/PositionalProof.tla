--------------------------- MODULE PositionalProof --------------------------
(***************************************************************************)
(* Writing a number digit by digit from the last, for every base and every *)
(* number.  Digits are worth Shift .. Base - 1 + Shift: Shift = 0 for      *)
(* collections with a zero digit (two digits or more), 1 for those without *)
(* (one or more), which number from one.                                   *)
(*                                                                         *)
(* Proved: what has been written and what remains always make up the       *)
(* number, so that when nothing remains the digits are worth the number    *)
(* (C04, C05, C07); the remainder gets smaller with every digit, so that   *)
(* this happens (C19), and never exceeds the number, so that it fits every *)
(* type that holds the number (C16); and a digit and the rest are the only *)
(* ones that make up their number, so that numerals are unique (C17).      *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS Base, Number, Shift
ASSUME Domain == /\ Base \in Nat /\ Number \in Nat /\ Shift \in {0, 1} /\ Base >= 2 - Shift

VARIABLES rem, weight, value, writing
vars == <<rem, weight, value, writing>>

Init == rem = Number /\ weight = 1 /\ value = 0 /\ writing = TRUE
Digit == (rem - Shift) % Base
Place ==
    /\ writing /\ rem > 0
    /\ value' = value + (Digit + Shift) * weight
    /\ weight' = weight * Base
    /\ rem' = (rem - Shift) \div Base
    /\ writing' = (rem' > 0)
Next == Place
Spec == Init /\ [][Next]_vars

Inv ==
    /\ rem \in Nat /\ weight \in Nat /\ value \in Nat /\ writing \in BOOLEAN
    /\ weight >= 1
    /\ rem * weight + value = Number

LEMMA DivMod == ASSUME NEW x \in Nat, NEW b \in Nat, b >= 1
                PROVE  /\ x \div b \in Nat /\ x % b \in Nat /\ x % b < b
                       /\ x = b * (x \div b) + (x % b)
  OBVIOUS

LEMMA Split == ASSUME NEW q \in Nat, NEW r \in Nat, NEW b \in Nat, NEW w \in Nat, NEW v \in Nat, NEW s \in Nat
               PROVE  q * (w * b) + (v + (r + s) * w) = (b * q + r + s) * w + v
  OBVIOUS

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY Domain DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Place
    <3> DEFINE x == rem - Shift
               q == x \div Base
               r == x % Base
    <3>1. x \in Nat /\ Base \in Nat /\ Base >= 1
      BY <2>1, Domain DEF Place, Inv
    <3>2. q \in Nat /\ r \in Nat /\ r < Base /\ x = Base * q + r
      BY <3>1, DivMod
    <3>3. rem = Base * q + r + Shift
      BY <3>1, <3>2, Domain DEF Inv
    <3>4. rem' = q /\ weight' = weight * Base /\ value' = value + (r + Shift) * weight
      BY <2>1 DEF Place, Digit
    <3> HIDE DEF x, q, r
    <3>5. q * (weight * Base) + (value + (r + Shift) * weight) = (Base * q + r + Shift) * weight + value
      <4>1. weight \in Nat /\ value \in Nat /\ Shift \in Nat
        BY Domain DEF Inv
      <4> QED
        BY ONLY <3>1, <3>2, <4>1, Split
    <3>6. weight * Base \in Nat /\ weight * Base >= 1
      BY <3>1 DEF Inv
    <3>7. value + (r + Shift) * weight \in Nat
      BY <3>1, <3>2, Domain DEF Inv
    <3>8. rem * weight + value = Number
      BY DEF Inv
    <3>9. rem' * weight' + value' = Number
      BY <3>3, <3>4, <3>5, <3>8
    <3>10. writing' \in BOOLEAN
      BY <2>1 DEF Place
    <3> QED
      BY <3>2, <3>4, <3>6, <3>7, <3>9, <3>10 DEF Inv
  <2>2. CASE UNCHANGED vars
    BY <2>2 DEF Inv, vars
  <2> QED
    BY <2>1, <2>2 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec
THEOREM Smaller == ASSUME Inv, Place PROVE rem' < rem
<1> DEFINE x == rem - Shift
           q == x \div Base
           r == x % Base
<1>1. x \in Nat /\ Base \in Nat /\ Base >= 1 /\ rem \in Nat /\ Shift \in {0, 1} /\ Base >= 2 - Shift /\ rem > 0
  BY Domain DEF Place, Inv
<1>2. q \in Nat /\ r \in Nat /\ x = Base * q + r
  BY <1>1, DivMod
<1>3. rem' = q /\ rem = x + Shift
  BY <1>1 DEF Place
<1> HIDE DEF x, q, r
<1>4. CASE q = 0
  BY <1>1, <1>3, <1>4
<1>5. CASE q > 0 /\ Shift = 1
  <2>1. Base * q >= q
    BY ONLY <1>1, <1>2
  <2> QED
    BY <2>1, <1>1, <1>2, <1>3, <1>5
<1>6. CASE q > 0 /\ Shift = 0
  <2>1. Base >= 2
    BY <1>1, <1>6
  <2>2. Base * q >= 2 * q
    BY ONLY <1>1, <1>2, <2>1
  <2> QED
    BY <2>2, <1>1, <1>2, <1>3, <1>6
<1> QED
  BY <1>1, <1>2, <1>4, <1>5, <1>6

(* Nothing remains: the digits are worth the number.                       *)
THEOREM Right == ASSUME Inv, rem = 0 PROVE value = Number
  BY DEF Inv

(* Two ways to make up a number from a digit and the rest are the same.    *)
THEOREM Unique ==
    ASSUME NEW b \in Nat, NEW q1 \in Nat, NEW q2 \in Nat, NEW d1 \in Nat, NEW d2 \in Nat,
           d1 < b, d2 < b, b * q1 + d1 = b * q2 + d2
    PROVE  q1 = q2 /\ d1 = d2
<1>1. ASSUME NEW p \in Nat, NEW q \in Nat, NEW d \in Nat, NEW e \in Nat, d < b, e < b, b * p + d = b * q + e, p < q
      PROVE  FALSE
  <2>1. q >= p + 1
    BY <1>1
  <2>2. b * q >= b * (p + 1)
    <3> DEFINE k == q - (p + 1)
    <3>1. k \in Nat /\ q = (p + 1) + k
      BY <2>1, <1>1
    <3> HIDE DEF k
    <3>2. b * ((p + 1) + k) = b * (p + 1) + b * k
      BY <1>1, <3>1
    <3>3. b * k \in Nat /\ b * (p + 1) \in Nat
      BY <1>1, <3>1
    <3> QED
      BY <3>1, <3>2, <3>3
  <2>3. b * (p + 1) = b * p + b
    BY <1>1
  <2>4. b * q \in Nat /\ b * p \in Nat /\ b * (p + 1) \in Nat
    BY <1>1
  <2> QED
    BY <1>1, <2>2, <2>3, <2>4
<1>2. ~(q1 < q2)
  BY <1>1
<1>3. ~(q2 < q1)
  BY <1>1
<1>4. q1 = q2
  BY <1>2, <1>3
<1>5. b * q1 \in Nat
  OBVIOUS
<1> QED
  BY <1>4, <1>5
=============================================================================
