---------------------------- MODULE EnumMachine -----------------------------
(***************************************************************************)
(* How an enumerated set finds its symbol: the number becomes an index of  *)
(* the machine's size, which fails for numbers beyond it, and is shifted   *)
(* down by one in sets without a zero.  Shown: the answer is EnumOutcome's *)
(* in every type, narrower or wider than an index (C14, C16, C19), and     *)
(* different numbers with a symbol have different ones (C17).              *)
(***************************************************************************)
EXTENDS Enumerated, FiniteSets

CONSTANTS Sizes, Maxima, IndexMax, Allocs

VARIABLES size, zero, n, max, alloc, pc, index, answer
vars == <<size, zero, n, max, alloc, pc, index, answer>>
Nothing == [r |-> "none", t |-> <<>>, p |-> <<>>]
Big == FromInt(n)
\* symbol i is i + 1 copies of a letter, so that long symbols do not fit
Symbols == [i \in 1..size |-> Repeat(<<64 + i>>, i)]

Init == /\ size \in Sizes /\ zero \in BOOLEAN /\ max \in Maxima /\ n \in 0..max /\ alloc \in Allocs
        /\ pc = "convert" /\ index = 0 /\ answer = Nothing
Answer(a) == answer' = a /\ pc' = "done" /\ UNCHANGED <<size, zero, n, max, alloc, index>>
Convert == pc = "convert" /\ IF n > IndexMax THEN Answer(Oob(Big))
                             ELSE index' = n /\ pc' = "zero" /\ UNCHANGED <<size, zero, n, max, alloc, answer>>
CheckZero == pc = "zero" /\ IF ~zero /\ n = 0 THEN Answer(NoZero)
                            ELSE index' = (IF zero THEN index ELSE index - 1) /\ pc' = "look" /\ UNCHANGED <<size, zero, n, max, alloc, answer>>
Look == pc = "look" /\ IF index >= size THEN Answer(Oob(Big))
                       ELSE IF ~alloc /\ Utf8Len(Symbols[index + 1]) > InlineCapacity THEN Answer(Oom(Big))
                       ELSE Answer(Ok(Symbols[index + 1]))
Next == Convert \/ CheckZero \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InType == index >= 0 /\ index <= IndexMax
Right == pc = "done" => LET e == EnumOutcome(Symbols, zero, Big) IN answer = (IF alloc THEN e ELSE WithoutAlloc(e, Big))
Reads == pc = "done" /\ answer.r = "ok" => n = Len(answer.t) - (IF zero THEN 1 ELSE 0)
Stops == <>(pc = "done")
=============================================================================
