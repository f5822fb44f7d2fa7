------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Who asked what, and who was told what, in which order: several threads  *)
(* put requests to the crate, the same ones again and again, at the same   *)
(* time and one after the other.  The first answer to a request settles    *)
(* it: everyone who asks again is told the same (C22).                     *)
(*   pending  the request each thread waits for, 0 if none                 *)
(*   told     the answers given so far                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NoHistory(threads) == [pending |-> [k \in 1..threads |-> 0], told |-> <<>>]

MayAsk(h, k, q) == k \in DOMAIN h.pending /\ h.pending[k] = 0
Asks(h, k, q) == [h EXCEPT !.pending[k] = q]

MayTell(h, k, q, a) ==
    /\ k \in DOMAIN h.pending /\ h.pending[k] = q
    /\ q \in DOMAIN h.told => a = h.told[q]
Tells(h, k, q, a) ==
    [pending |-> [h.pending EXCEPT ![k] = 0],
     told |-> IF q \in DOMAIN h.told THEN h.told ELSE h.told @@ (q :> a)]
=============================================================================
