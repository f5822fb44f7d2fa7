----------------------------- MODULE Enumerated -----------------------------
(* Enumerated systems: a finite list of symbol texts, counted from 0 or 1. *)
EXTENDS BigNat, Outcome

EnumOutcome(syms, zero, n) ==
    IF ~zero /\ IsZero(n) THEN NoZero
    ELSE LET first == IF zero THEN 0 ELSE 1 IN
         IF FitsInt(n) /\ ToInt(n) - first < Len(syms) THEN Ok(syms[ToInt(n) - first + 1])
         ELSE Oob(n)
=============================================================================
