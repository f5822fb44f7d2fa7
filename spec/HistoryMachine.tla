--------------------------- MODULE HistoryMachine ---------------------------
(***************************************************************************)
(* Threads that write numerals, digit by digit, into memory.  As the crate *)
(* does it, all memory belongs to the request: the text is made in a new   *)
(* string.  Refines History under every schedule.                          *)
(*                                                                         *)
(* Two other ways to do it show what History forbids:                      *)
(*   Scratch = "shared"   the digits go to memory all threads share        *)
(*   Memory = "last"      the last number and its text are kept, and the   *)
(*                        text is given again if the number, cut to Narrow,*)
(*                        is the same                                      *)
(***************************************************************************)
EXTENDS History, Integers

CONSTANTS Threads, Numbers, Base, Scratch, Memory, Narrow, Rounds

VARIABLES hist, pc, num, rem, buf, last, done
vars == <<hist, pc, num, rem, buf, last, done>>

NoLast == [known |-> FALSE, n |-> 0, t |-> <<>>]
Place(k) == IF Scratch = "shared" THEN 1 ELSE k
Cut(n) == n % Narrow

Init ==
    /\ hist = NoHistory(Threads)
    /\ pc = [k \in 1..Threads |-> "idle"]
    /\ num = [k \in 1..Threads |-> 0]
    /\ rem = [k \in 1..Threads |-> 0]
    /\ buf = [k \in 1..Threads |-> <<>>]
    /\ last = NoLast
    /\ done = [k \in 1..Threads |-> 0]

(* Requests are numbers plus one, so that none is 0. *)
Ask(k) == \E n \in Numbers :
    /\ pc[k] = "idle" /\ done[k] < Rounds
    /\ MayAsk(hist, k, n + 1)
    /\ hist' = Asks(hist, k, n + 1)
    /\ num' = [num EXCEPT ![k] = n]
    /\ rem' = [rem EXCEPT ![k] = n]
    /\ pc' = [pc EXCEPT ![k] = "start"]
    /\ UNCHANGED <<buf, last, done>>
Start(k) ==
    /\ pc[k] = "start"
    /\ IF Memory = "last" /\ last.known /\ Cut(last.n) = Cut(num[k])
       THEN buf' = [buf EXCEPT ![Place(k)] = last.t] /\ pc' = [pc EXCEPT ![k] = "tell"]
       ELSE buf' = [buf EXCEPT ![Place(k)] = <<>>] /\ pc' = [pc EXCEPT ![k] = "digit"]
    /\ UNCHANGED <<hist, num, rem, last, done>>
Digit(k) ==
    /\ pc[k] = "digit"
    /\ buf' = [buf EXCEPT ![Place(k)] = <<rem[k] % Base>> \o @]
    /\ rem' = [rem EXCEPT ![k] = @ \div Base]
    /\ pc' = [pc EXCEPT ![k] = IF rem[k] < Base THEN "tell" ELSE "digit"]
    /\ UNCHANGED <<hist, num, last, done>>
(* The answer is what the memory holds now. *)
Tell(k) ==
    /\ pc[k] = "tell"
    /\ hist' = Tells(hist, k, num[k] + 1, buf[Place(k)])
    /\ last' = IF Memory = "last" THEN [known |-> TRUE, n |-> num[k], t |-> buf[Place(k)]] ELSE last
    /\ pc' = [pc EXCEPT ![k] = "idle"]
    /\ done' = [done EXCEPT ![k] = @ + 1]
    /\ UNCHANGED <<num, rem, buf>>
Next == \E k \in 1..Threads : Ask(k) \/ Start(k) \/ Digit(k) \/ Tell(k)
Spec == Init /\ [][Next]_vars /\ \A k \in 1..Threads : WF_vars(Start(k) \/ Digit(k) \/ Tell(k))

-----------------------------------------------------------------------------
(* Nobody is ever about to be told something else than others were.        *)
OneAnswer == \A k \in 1..Threads : pc[k] = "tell" => MayTell(hist, k, num[k] + 1, buf[Place(k)])
RECURSIVE Value(_)
Value(t) == IF t = <<>> THEN 0 ELSE Value(SubSeq(t, 1, Len(t) - 1)) * Base + t[Len(t)]
(* And what they are told is right.                                        *)
Right == \A q \in DOMAIN hist.told : Value(hist.told[q]) = q - 1
(* Everyone who asks is told.                                              *)
Answers == \A k \in 1..Threads : hist.pending[k] # 0 ~> hist.pending[k] = 0
(* The settled answers never change.                                       *)
Settled == [][\A q \in DOMAIN hist.told : q \in DOMAIN hist'.told /\ hist'.told[q] = hist.told[q]]_vars
=============================================================================
