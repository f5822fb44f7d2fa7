---------------------------- MODULE AdditiveProof ---------------------------
(***************************************************************************)
(* Greedy subtraction in an additive set with any number of symbols and    *)
(* any values, in a type up to Max.  Proved: the written symbols and the   *)
(* remainder always make up the number, nothing leaves the type, and a     *)
(* symbol is written only when no larger one fits (C08), which is also why *)
(* the symbols never ascend.                                               *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS K, Value, Max, Number
ASSUME Domain ==
    /\ K \in Nat /\ Max \in Nat /\ Number \in 0..Max
    /\ Value \in [1..K -> Nat]
    /\ \A i, j \in 1..K : i < j => Value[i] > Value[j]

VARIABLES sym, rem, sum
vars == <<sym, rem, sum>>

Init == sym = 1 /\ rem = Number /\ sum = 0
Skip == /\ sym <= K /\ Value[sym] > 0 /\ (Value[sym] > Max \/ rem < Value[sym])
        /\ sym' = sym + 1 /\ UNCHANGED <<rem, sum>>
Write == /\ sym <= K /\ Value[sym] > 0 /\ Value[sym] <= Max /\ rem >= Value[sym]
         /\ rem' = rem - Value[sym] /\ sum' = sum + Value[sym] /\ UNCHANGED sym
Next == Skip \/ Write
Spec == Init /\ [][Next]_vars

Fits(i) == Value[i] <= rem
Inv ==
    /\ sym \in 1..(K + 1) /\ rem \in 0..Max /\ sum \in Nat
    /\ sum + rem = Number
    /\ \A i \in 1..K : i < sym => ~Fits(i)
(* A written symbol is the largest that fits.                              *)
Greedy == [][Write => \A i \in 1..K : Fits(i) => Value[i] <= Value[sym]]_vars

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY Domain DEF Init, Inv, Fits
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Skip
    <3>1. sym \in 1..K /\ Value[sym] \in Nat /\ rem \in 0..Max
      BY <2>1, Domain DEF Inv, Skip
    <3>2. ~(Value[sym] <= rem)
      BY <2>1, <3>1, Domain DEF Skip
    <3>3. sym' = sym + 1 /\ rem' = rem /\ sum' = sum /\ sym' \in 1..(K + 1)
      BY <2>1, <3>1, Domain DEF Skip
    <3>4. \A i \in 1..K : i < sym' => ~(Value[i] <= rem')
      <4> TAKE i \in 1..K
      <4> HAVE i < sym'
      <4>1. i < sym \/ i = sym
        BY <3>1, <3>3
      <4> QED
        BY <3>2, <3>3, <4>1 DEF Inv, Fits
    <3> QED
      BY <3>3, <3>4 DEF Inv, Fits
  <2>2. CASE Write
    <3>1. sym \in 1..K /\ Value[sym] \in Nat
      BY <2>2, Domain DEF Inv, Write
    <3>2. rem' \in 0..Max /\ sum' \in Nat /\ sum' + rem' = Number /\ rem' <= rem
      BY <2>2, <3>1, Domain DEF Inv, Write
    <3>3. \A i \in 1..K : i < sym' => ~(Value[i] <= rem')
      BY <2>2, <3>2, Domain DEF Inv, Write, Fits
    <3> QED
      BY <2>2, <3>2, <3>3 DEF Inv, Write, Fits
  <2>3. CASE UNCHANGED vars
    BY <2>3 DEF Inv, vars, Fits
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM Largest == ASSUME Inv, Write PROVE \A i \in 1..K : Fits(i) => Value[i] <= Value[sym]
<1>1. sym \in 1..K
  BY Domain DEF Inv, Write
<1>2. \A i \in 1..K : Fits(i) => i >= sym
  BY Domain, <1>1 DEF Inv
<1>3. \A i \in 1..K : i >= sym => i = sym \/ Value[sym] > Value[i]
  BY Domain, <1>1
<1>4. \A i \in 1..K : Value[i] \in Nat
  BY Domain
<1> QED
  BY <1>1, <1>2, <1>3, <1>4
=============================================================================
