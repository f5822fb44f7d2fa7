----------------------------- MODULE Positional -----------------------------
(***************************************************************************)
(* How a digit collection formats a number, one arithmetic operation at a  *)
(* time, in an unsigned type that holds 0 .. max: a step that would leave  *)
(* the type, divide by zero or ask for a digit that does not exist goes to *)
(* "panic".  The string under construction holds InlineCapacity bytes and  *)
(* cannot grow further unless alloc.                                       *)
(*                                                                         *)
(* Shown: from every term, type and number, the machine never panics,      *)
(* always stops, and answers what CollOutcome says (C04-C07, C16, C18,     *)
(* C19); and CollOutcome itself has the properties users rely on: numerals *)
(* read back (C04, C05, C17), succeed each other (C21), and combinations   *)
(* equal plain listings (C07).                                             *)
(***************************************************************************)
EXTENDS Terms, FiniteSets

CONSTANTS TermSet,     \* the collections
          Maxima,      \* the largest values of the types
          Allocs       \* with and/or without heap

VARIABLES coll, n, max, alloc,      \* the request; these never change
          cur,                      \* the collection at work (a fallback, later)
          pc, rem, count, first, out, answer
request == <<coll, n, max, alloc>>
vars == <<coll, n, max, alloc, cur, pc, rem, count, first, out, answer>>

Nothing == [r |-> "none", t |-> <<>>, p |-> <<>>]
Big == FromInt(n)

Init ==
    /\ coll \in TermSet /\ n = 0 /\ max = 0 /\ alloc = TRUE
    /\ cur = coll /\ pc = "ask" /\ rem = 0 /\ count = 0 /\ first = TRUE /\ out = <<>> /\ answer = Nothing

Ask ==
    /\ pc = "ask"
    /\ max' \in Maxima /\ n' \in 0..max' /\ alloc' \in Allocs
    /\ pc' = "enter" /\ UNCHANGED <<coll, cur, rem, count, first, out, answer>>

Answer(a) == answer' = a /\ pc' = "done" /\ UNCHANGED <<request, cur, rem, count, first, out>>
Panic == pc' = "panic" /\ UNCHANGED <<request, cur, rem, count, first, out, answer>>

(* The number of digits as a value of the type, if it has one.             *)
Enter ==
    /\ pc = "enter"
    /\ IF CLen(cur) > max THEN
            \* every value of the type has a digit of its own
            IF OneBased(cur) /\ n = 0 THEN Answer(NoZero)
            ELSE LET i == IF OneBased(cur) THEN n - 1 ELSE n IN
                 IF i >= CLen(cur) THEN Panic ELSE Answer(Ok(<<CDigit(cur, i)>>))
       ELSE IF CFixed(cur) /\ (IF OneBased(cur) THEN n > CLen(cur) ELSE n >= CLen(cur)) THEN
            IF CLen(CFallback(cur)) = 0 THEN Answer(Oob(Big))
            ELSE cur' = CFallback(cur) /\ UNCHANGED <<request, pc, rem, count, first, out, answer>>
       ELSE /\ count' = CLen(cur) /\ rem' = n /\ pc' = "test"
            /\ UNCHANGED <<request, cur, first, out, answer>>

Test ==
    /\ pc = "test"
    /\ IF rem = 0 /\ ~first THEN Answer(Ok(out))
       ELSE pc' = "shift" /\ UNCHANGED <<request, cur, rem, count, first, out, answer>>

(* Words are counted from the number one less, in every place; when the    *)
(* count starts at zero, the last place already is one less.               *)
Shift ==
    /\ pc = "shift"
    /\ IF ~CHasZero(cur) /\ (~CZeroBased(cur) \/ ~first) THEN
            IF rem = 0 THEN Answer(NoZero)
            ELSE IF rem - 1 < 0 THEN Panic
            ELSE rem' = rem - 1 /\ first' = FALSE /\ pc' = "digit" /\ UNCHANGED <<request, cur, count, out, answer>>
       ELSE first' = FALSE /\ pc' = "digit" /\ UNCHANGED <<request, cur, rem, count, out, answer>>

Digit ==
    /\ pc = "digit"
    /\ IF count = 0 \/ (CHasZero(cur) /\ count = 1 /\ rem # 0) THEN Answer(Oob(Big))
       ELSE IF count = 0 THEN Panic
       ELSE LET i == rem % count IN
            IF i >= CLen(cur) THEN Panic
            ELSE LET longer == <<CDigit(cur, i)>> \o out IN
                 IF ~alloc /\ Utf8Len(longer) > InlineCapacity THEN Answer(Oom(Big))
                 ELSE /\ out' = longer /\ rem' = rem \div count /\ pc' = "test"
                      /\ UNCHANGED <<request, cur, count, first, answer>>

Next == Ask \/ Enter \/ Test \/ Shift \/ Digit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
NoPanic == pc # "panic"
InType == rem \in 0..max /\ count \in 0..max

RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
Index(s) == IndexIn(cur, s)
Value(t) == FoldLeft(LAMBDA acc, s : acc * count + Index(s), 0, t)
Rank(t) == FoldLeft(LAMBDA acc, s : acc * count + Index(s) + 1, 0, t)
(* What is written and what remains always make up the number.             *)
MakesUp ==
    pc = "test" /\ out # <<>> =>
        IF CHasZero(cur) THEN rem * Power(count, Len(out)) + Value(out) = n
        ELSE rem * Power(count, Len(out)) + Rank(out) = (IF CZeroBased(cur) THEN n + 1 ELSE n)
(* It gets closer to the end with every place.                             *)
Shrinks == [][pc = "digit" /\ pc' = "test" => rem' < rem \/ rem' = 0 \/ (count = 1 /\ ~CHasZero(cur))]_vars
Stops == <>(pc = "done")

Right ==
    pc = "done" =>
        answer = (IF alloc THEN CollOutcome(coll, Big) ELSE WithoutAlloc(CollOutcome(coll, Big), Big))

-----------------------------------------------------------------------------
(* Laws of CollOutcome, checked once per collection and number.            *)
Asked == pc = "enter" /\ cur = coll /\ alloc /\ \A m \in Maxima : n <= m => max <= m
RECURSIVE Reads(_, _)
(* The number a text stands for, judging by the text alone.                *)
Reads(x, t) ==
    IF CFixed(x) /\ (Len(t) # 1 \/ t[1] \notin ToSet(CDigits(x))) THEN Reads(CFallback(x), t)
    ELSE LET d == [i \in 1..Len(t) |-> IndexIn(x, t[i])] IN
         IF CHasZero(x) THEN NumeralValue(d, CLen(x))
         ELSE IF OneBased(x) THEN WordRank(d, CLen(x)) ELSE PredNat(WordRank(d, CLen(x)))
ReadsBack == Asked => LET o == CollOutcome(coll, Big) IN o.r = "ok" => Reads(coll, o.t) = Big
NoLeadingZero ==
    Asked => LET o == CollOutcome(coll, Big) IN
        o.r = "ok" /\ ~CFixed(coll) /\ CHasZero(coll) /\ Len(o.t) > 1 => o.t[1] # CDigit(coll, 0)
Listing == Asked => CollOutcome(coll, Big) = CollOutcome(Plain(coll), Big)
(* Counting from one is counting from zero, one later.                     *)
OneLater ==
    Asked /\ n > 0 /\ ~CHasZero(coll) /\ ~CFixed(coll) =>
        LET a == CollOutcome(One(coll), Big)
            b == CollOutcome(Set(CDigits(coll), FALSE), PredNat(Big))
        IN  a.r = b.r /\ a.t = b.t
Succeeds ==
    Asked /\ ~CFixed(coll) /\ CLen(coll) > (IF CHasZero(coll) THEN 1 ELSE 0) =>
        LET a == CollOutcome(coll, Big)
            b == CollOutcome(coll, AddInt(Big, 1))
        IN  a.r = "ok" => b.r = "ok" /\ b.t = Successor(coll, a.t)
                          /\ (Len(b.t) > Len(a.t) \/ (Len(b.t) = Len(a.t) /\ LexCmp([i \in DOMAIN a.t |-> IndexIn(coll, a.t[i])], [i \in DOMAIN b.t |-> IndexIn(coll, b.t[i])]) < 0))
(* A fixed collection has one symbol for each number in its range, and     *)
(* counting from one moves the range but not its size.                     *)
FixedRange ==
    Asked /\ CFixed(coll) =>
        LET o == CollOutcome(coll, Big)
            lo == IF OneBased(coll) THEN 1 ELSE 0
        IN  IF n >= lo /\ n < lo + CLen(coll) THEN o = Ok(<<CDigit(coll, n - lo)>>)
            ELSE IF n < lo THEN o = NoZero
            ELSE IF CLen(CFallback(coll)) = 0 THEN o = Oob(Big) ELSE o = CollOutcome(CFallback(coll), Big)
=============================================================================
