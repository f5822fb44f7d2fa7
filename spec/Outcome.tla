------------------------------ MODULE Outcome -------------------------------
(***************************************************************************)
(* The answer to a formatting request: a text or one of the three errors.  *)
(*   r: "ok"      text t                                                   *)
(*      "nozero"  the number was 0 and the system has no zero symbol       *)
(*      "oob"     number p cannot be represented by the system             *)
(*      "oom"     number p cannot be formatted in the available memory     *)
(*      "long"    (specification only) a text of more than LongLimit       *)
(*                symbols, not spelled out                                 *)
(***************************************************************************)
EXTENDS Text

InlineCapacity == 62
LongLimit == 400

Ok(t)   == [r |-> "ok",     t |-> t,    p |-> <<>>]
NoZero  == [r |-> "nozero", t |-> <<>>, p |-> <<>>]
Oob(n)  == [r |-> "oob",    t |-> <<>>, p |-> n]
Oom(n)  == [r |-> "oom",    t |-> <<>>, p |-> n]
Long    == [r |-> "long",   t |-> <<>>, p |-> <<>>]

(* Without heap allocation, every text that does not fit inline becomes an *)
(* out-of-memory error for the number that was asked for.                  *)
WithoutAlloc(o, n) ==
    IF o.r = "long" \/ (o.r = "ok" /\ Utf8Len(o.t) > InlineCapacity) THEN Oom(n) ELSE o
=============================================================================
