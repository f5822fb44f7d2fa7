------------------------------ MODULE Odometer ------------------------------
(***************************************************************************)
(* Counting up with a numeral alone: each step turns the last digit, and   *)
(* carries.  Beside it runs a count.  Shown: the numeral always is what    *)
(* formatting the count gives (C04, C05, C21), is longer or later than all *)
(* before, and never comes back (C17).                                     *)
(***************************************************************************)
EXTENDS Terms, FiniteSets

CONSTANTS TermSet, Until

VARIABLES coll, n, text
vars == <<coll, n, text>>

First(x) == IF CHasZero(x) \/ ~OneBased(x) THEN 0 ELSE 1
Init == coll \in TermSet /\ n = First(coll) /\ text = <<CDigit(coll, 0)>>
Turned == n < Until /\ n' = n + 1 /\ text' = Successor(coll, text) /\ UNCHANGED coll
Spec == Init /\ [][Turned]_vars

Agrees == CollOutcome(coll, FromInt(n)) = Ok(text)
Indices(t) == [i \in DOMAIN t |-> IndexIn(coll, t[i])]
Later == [][Len(text') > Len(text) \/ (Len(text') = Len(text) /\ LexCmp(Indices(text), Indices(text')) < 0)]_vars
(* Growing by one digit happens only when all digits roll over.            *)
Rolls == [][Len(text') > Len(text) =>
              /\ Len(text') = Len(text) + 1
              /\ \A i \in DOMAIN text : Indices(text)[i] = CLen(coll) - 1]_vars
=============================================================================
