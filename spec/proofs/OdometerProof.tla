---------------------------- MODULE OdometerProof ---------------------------
(***************************************************************************)
(* Turning a numeral into the next one digit by digit, from the last: the  *)
(* digit is advanced while there is a carry, and the last symbol becomes   *)
(* the first and carries on.  Digits are worth Shift .. Base - 1 + Shift   *)
(* (Shift = 1: systems without a zero digit).                              *)
(*                                                                         *)
(* Proved for every base and every numeral: what has been turned is worth  *)
(* one more than what it was, up to the carry; a carry that is left at the *)
(* end is exactly one more digit worth 1 (C21 follows from C04, C05).      *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS Base, Shift
ASSUME Domain == Base \in Nat /\ Shift \in {0, 1} /\ Base >= 2 - Shift

VARIABLES old, new, weight, carry
vars == <<old, new, weight, carry>>

Init == old = 0 /\ new = 0 /\ weight = 1 /\ carry = 1
Turn(d) ==
    /\ old' = old + (d + Shift) * weight
    /\ IF carry = 1 /\ d = Base - 1
       THEN new' = new + Shift * weight /\ carry' = 1
       ELSE new' = new + (d + carry + Shift) * weight /\ carry' = 0
    /\ weight' = weight * Base
Next == \E d \in 0..(Base - 1) : Turn(d)
Spec == Init /\ [][Next]_vars

Inv ==
    /\ old \in Nat /\ new \in Nat /\ weight \in Nat /\ carry \in {0, 1}
    /\ old + 1 = new + carry * weight

LEMMA Over == ASSUME NEW o \in Nat, NEW n \in Nat, NEW w \in Nat, NEW b \in Nat, NEW s \in Nat,
                     o + 1 = n + w
              PROVE  (o + (b - 1 + s) * w) + 1 = (n + s * w) + w * b
  OBVIOUS
LEMMA Within == ASSUME NEW o \in Nat, NEW n \in Nat, NEW w \in Nat, NEW d \in Nat, NEW s \in Nat, NEW c \in Nat,
                       o + 1 = n + c * w
                PROVE  (o + (d + s) * w) + 1 = n + (d + c + s) * w
<1>1. (d + c + s) * w = (d + s) * w + c * w
  OBVIOUS
<1>2. (d + s) * w \in Nat /\ c * w \in Nat /\ (d + c + s) * w \in Nat
  OBVIOUS
<1> DEFINE x == (d + s) * w
           y == c * w
           z == (d + c + s) * w
<1>3. x \in Nat /\ y \in Nat /\ z \in Nat /\ z = x + y /\ o + 1 = n + y
  BY <1>1, <1>2
<1> HIDE DEF x, y, z
<1>4. (o + x) + 1 = n + z
  BY <1>3
<1> QED
  BY <1>4 DEF x, z
LEMMA Times == ASSUME NEW a \in Nat, NEW b \in Nat PROVE a * b \in Nat
  OBVIOUS

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. ASSUME NEW d \in 0..(Base - 1), Turn(d) PROVE Inv'
    <3>1. d \in Nat /\ Base \in Nat /\ Shift \in Nat
      BY Domain
    <3>2. old \in Nat /\ new \in Nat /\ weight \in Nat /\ carry \in Nat /\ carry \in {0, 1}
      BY DEF Inv
    <3>3. weight' = weight * Base /\ weight' \in Nat
      BY ONLY <2>1, <3>1, <3>2, Times DEF Turn
    <3>4. old' = old + (d + Shift) * weight /\ old' \in Nat
      <4>1. (d + Shift) \in Nat
        BY <3>1
      <4>2. (d + Shift) * weight \in Nat
        BY ONLY <4>1, <3>2, Times
      <4>3. old' = old + (d + Shift) * weight
        BY <2>1 DEF Turn
      <4> QED
        BY ONLY <4>2, <4>3, <3>2
    <3>5. CASE carry = 1 /\ d = Base - 1
      <4>1. new' = new + Shift * weight /\ carry' = 1
        BY <2>1, <3>5 DEF Turn
      <4>2. old + 1 = new + weight
        BY <3>5, <3>2 DEF Inv
      <4>3. (old + (Base - 1 + Shift) * weight) + 1 = (new + Shift * weight) + weight * Base
        BY ONLY <3>1, <3>2, <4>2, Over
      <4>4. old' + 1 = new' + weight'
        BY ONLY <4>1, <4>3, <3>3, <3>4, <3>5
      <4>5. Shift * weight \in Nat
        BY ONLY <3>1, <3>2, Times
      <4> QED
        BY ONLY <4>1, <4>4, <4>5, <3>2, <3>3, <3>4 DEF Inv
    <3>6. CASE ~(carry = 1 /\ d = Base - 1)
      <4>1. new' = new + (d + carry + Shift) * weight /\ carry' = 0
        BY <2>1, <3>6 DEF Turn
      <4>2. old + 1 = new + carry * weight
        BY DEF Inv
      <4>3. (old + (d + Shift) * weight) + 1 = new + (d + carry + Shift) * weight
        BY ONLY <3>1, <3>2, <4>2, Within
      <4>4. (d + carry + Shift) \in Nat
        BY ONLY <3>1, <3>2
      <4>5. (d + carry + Shift) * weight \in Nat
        BY ONLY <4>4, <3>2, Times
      <4>6. old' + 1 = new' + 0 * weight'
        BY ONLY <4>1, <4>3, <4>5, <3>2, <3>3, <3>4
      <4> QED
        BY ONLY <4>1, <4>5, <4>6, <3>2, <3>3, <3>4 DEF Inv
    <3> QED
      BY <3>5, <3>6
  <2>2. CASE UNCHANGED vars
    BY <2>2 DEF Inv, vars
  <2> QED
    BY <2>1, <2>2 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec
=============================================================================
