------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Generates sessions of string operations from the specification: every   *)
(* operation in every situation, where situations (View) tell apart how a  *)
(* string was made, whether it is on the heap, how close to the inline     *)
(* capacity it is, and how wide its first and last characters are.  Each   *)
(* transition found prints the operations that lead to it; the runner      *)
(* replays them into the crate and has the answers judged by Trace.        *)
(***************************************************************************)
EXTENDS NominalStr, TLC, Json

CONSTANTS Slots, HasAlloc, Chars, Texts, Tight, Limit

VARIABLES slots, made, hist
vars == <<slots, made, hist>>

Init == slots = [i \in 1..Slots |-> NoStr] /\ made = [i \in 1..Slots |-> "none"] /\ hist = <<>>

Op(name, d, s, t) == [op |-> name, d |-> d, s |-> s, t |-> t]
How(o) == IF o.op = "rev" THEN "rev"
          ELSE IF o.op \in {"new", "def", "str", "strref", "own", "char"} THEN "fwd"
          ELSE IF o.op = "clone" THEN made[o.s] ELSE made[o.d]
Ops == {Op(x, d, d, <<>>) : x \in {"new", "rev", "def", "upper", "lower", "take", "into", "drop"}, d \in 1..Slots}
       \cup {Op(x, d, d, t) : x \in {"str", "strref", "own", "pstr"}, d \in 1..Slots, t \in Texts}
       \cup {Op(x, d, d, <<c>>) : x \in {"char", "push", "front"}, d \in 1..Slots, c \in Chars}
       \cup {Op("clone", d, s, <<>>) : d \in 1..Slots, s \in 1..Slots}
(* Strings are made in empty slots.                                        *)
Sensible(o) == o.op \in {"new", "rev", "def", "str", "strref", "own", "char"} => ~slots[o.d].live

Next == \E o \in Ops :
    /\ Sensible(o) /\ Enabled(slots, o, HasAlloc)
    /\ LET r == Do(slots, o, HasAlloc) IN
       /\ slots' = r[1]
       /\ made' = [made EXCEPT ![o.d] = IF r[1][o.d].live THEN How(o) ELSE "none"]
    /\ hist' = Append(hist, o)
    /\ PrintT("SESSION " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

Class(s) ==
    LET k == Utf8Len(s.t) IN
    IF ~s.live THEN <<"none">>
    ELSE <<s.heap, IF k = 0 THEN 0 ELSE IF k < InlineCapacity - Tight THEN 1 ELSE IF k > InlineCapacity + 1 THEN 99 ELSE k,
           IF k = 0 THEN 0 ELSE Utf8Width(s.t[1]), IF k = 0 THEN 0 ELSE Utf8Width(s.t[Len(s.t)])>>
View == <<[i \in 1..Slots |-> Class(slots[i])], made>>
Short == Len(hist) < Limit /\ \A i \in 1..Slots : Len(slots[i].t) < 140
Fine == \A i \in 1..Slots : StrOk(slots[i], HasAlloc)
=============================================================================
