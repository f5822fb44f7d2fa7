-------------------------- MODULE AdditiveMachine ---------------------------
(***************************************************************************)
(* How an additive set is accepted and how it formats a number, in an      *)
(* unsigned type that holds 0 .. max.  Symbol i of the set is the text     *)
(* <<64 + i>>, or two characters for even i; values are small integers.    *)
(*                                                                         *)
(* Shown: a set is accepted exactly when its values strictly descend       *)
(* (C09); the machine subtracts greedily without leaving the type, skips   *)
(* values the type cannot hold, always stops, and answers what             *)
(* AdditiveOutcome says (C08, C16, C18, C19); the answer's symbols descend *)
(* and add up to the number, and each is the largest that fits (C08); the  *)
(* zero symbol is never part of another number (C09); numerals read back   *)
(* (C17).                                                                  *)
(***************************************************************************)
EXTENDS Additive, FiniteSets

CONSTANTS MaxValue,     \* symbol values are 0 .. MaxValue
          MaxSymbols,
          Maxima, Allocs

VARIABLES vals, k,                     \* the values offered; the pair compared next
          n, max, alloc,               \* the request
          pc, sym, rem, out, used, answer
request == <<vals, n, max, alloc>>
vars == <<vals, k, n, max, alloc, pc, sym, rem, out, used, answer>>

Symbol(i) == IF i % 2 = 0 THEN <<64 + i, 96 + i>> ELSE <<64 + i>>
SetOf == [i \in DOMAIN vals |-> [s |-> Symbol(i), v |-> FromInt(vals[i])]]
Big == FromInt(n)
Nothing == [r |-> "none", t |-> <<>>, p |-> <<>>]

Init ==
    /\ vals \in UNION {[1..c -> 0..MaxValue] : c \in 0..MaxSymbols}
    /\ k = 1 /\ n = 0 /\ max = 0 /\ alloc = TRUE
    /\ pc = "new" /\ sym = 1 /\ rem = 0 /\ out = <<>> /\ used = <<>> /\ answer = Nothing

(* Creation compares each value with the one before.                       *)
Compare ==
    /\ pc = "new"
    /\ IF k + 1 > Len(vals) THEN pc' = "accepted" /\ k' = k
       ELSE IF vals[k] > vals[k + 1] THEN k' = k + 1 /\ pc' = pc
       ELSE pc' = "refused" /\ k' = k
    /\ UNCHANGED <<vals, n, max, alloc, sym, rem, out, used, answer>>

Ask ==
    /\ pc = "accepted"
    /\ max' \in Maxima /\ n' \in 0..max' /\ alloc' \in Allocs
    /\ rem' = n' /\ pc' = "enter"
    /\ UNCHANGED <<vals, k, sym, out, used, answer>>

Answer(a) == answer' = a /\ pc' = "done" /\ UNCHANGED <<request, k, sym, rem, out, used>>

(* Push a symbol; the string may be full.                                  *)
Push(i, then) ==
    IF ~alloc /\ Utf8Len(out \o Symbol(i)) > InlineCapacity THEN Answer(Oom(Big))
    ELSE /\ out' = out \o Symbol(i) /\ used' = Append(used, i) /\ pc' = then
         /\ rem' = rem - vals[i]
         /\ UNCHANGED <<request, k, sym, answer>>

Enter ==
    /\ pc = "enter"
    /\ IF rem = 0 THEN
           IF vals # <<>> /\ vals[Len(vals)] = 0 THEN Push(Len(vals), "finish") ELSE Answer(NoZero)
       ELSE pc' = "symbol" /\ UNCHANGED <<request, k, sym, rem, out, used, answer>>

Symbols ==
    /\ pc = "symbol"
    /\ IF sym > Len(vals) \/ (sym <= Len(vals) /\ vals[sym] = 0) THEN
            pc' = "finish" /\ UNCHANGED <<request, k, sym, rem, out, used, answer>>
       ELSE IF vals[sym] > max \/ rem < vals[sym] THEN
            sym' = sym + 1 /\ UNCHANGED <<request, k, pc, rem, out, used, answer>>
       ELSE Push(sym, "symbol")

Finish == pc = "finish" /\ IF rem = 0 THEN Answer(Ok(out)) ELSE Answer(Oob(Big))

Next == Compare \/ Ask \/ Enter \/ Symbols \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Accepts ==
    /\ pc = "refused" => ~Descends([i \in DOMAIN vals |-> FromInt(vals[i])])
    /\ pc = "accepted" => /\ Descends([i \in DOMAIN vals |-> FromInt(vals[i])])
                          /\ \A i \in DOMAIN vals : vals[i] = 0 => i = Len(vals)
InType == rem \in 0..max /\ n \in 0..max
Sum(s) == FoldLeft(LAMBDA acc, i : acc + vals[i], 0, s)
AddsUp == pc \in {"symbol", "finish", "done"} => Sum(used) + rem = n
Greedily ==
    \A i \in DOMAIN used :
        LET left == n - Sum(SubSeq(used, 1, i - 1)) IN
        /\ i > 1 => used[i] >= used[i - 1]
        /\ n > 0 => vals[used[i]] > 0 /\ \A j \in DOMAIN vals : vals[j] > vals[used[i]] => vals[j] > left
NeverZero == n > 0 => \A i \in DOMAIN used : vals[used[i]] # 0
Right ==
    pc = "done" =>
        LET e == AdditiveOutcome(SetOf, Big) IN
        \/ answer = (IF alloc THEN e ELSE WithoutAlloc(e, Big))
        \/ ~alloc /\ e.r = "oob" /\ AttemptTooLong(SetOf, Big) /\ answer = Oom(Big)
(* The symbols differ, so the sum can be read from the text: the number of *)
(* first characters of symbol i tells how often it was used.               *)
ReadsBack ==
    pc = "done" /\ answer.r = "ok" =>
        n = FoldLeft(LAMBDA acc, i : acc + vals[i] * Cardinality({j \in DOMAIN answer.t : answer.t[j] = 64 + i}), 0, [i \in DOMAIN vals |-> i])
Stops == <>(pc \in {"refused", "done"})
=============================================================================
