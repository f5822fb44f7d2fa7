--------------------------- MODULE HebrewMachine ----------------------------
(***************************************************************************)
(* How Hebrew numerals are written: the letters from 400 down to 1, each   *)
(* as often as it fits, with 15 and 16 and a lone letter treated on the    *)
(* way.  In an unsigned type up to max; max = 0 stands for a type that     *)
(* holds everything asked.                                                 *)
(*                                                                         *)
(* Shown: the machine stays in its type, answers what HebrewOutcome says,  *)
(* the letters add up to the number and descend, the divine-name letters   *)
(* never end a numeral, and exactly the lone letters are wrapped (C10,     *)
(* C16, C17, C19).                                                         *)
(***************************************************************************)
EXTENDS Hebrew, FiniteSets

CONSTANTS Requests,     \* <<max, lowest, highest>> ranges of numbers
          Allocs

HebrewLetters ==
    <<[s |-> Tav, v |-> 400]>>
    \o [i \in 1..3 |-> [s |-> HebrewHundreds[4 - i], v |-> 100 * (4 - i)]]
    \o [i \in 1..9 |-> [s |-> HebrewTens[10 - i], v |-> 10 * (10 - i)]]
    \o [i \in 1..9 |-> [s |-> HebrewOnes[10 - i], v |-> 10 - i]]

VARIABLES n, max, alloc, pc, sym, rem, out, answer
request == <<n, max, alloc>>
vars == <<n, max, alloc, pc, sym, rem, out, answer>>

Big == FromInt(n)
Nothing == [r |-> "none", t |-> <<>>, p |-> <<>>]
Teen(t) == <<HebrewOnes[9], Gershayim, HebrewOnes[t - 9]>>

Init ==
    /\ \E r \in Requests : max = r[1] /\ n = r[2]
    /\ alloc \in Allocs
    /\ pc = "enter" /\ sym = 1 /\ rem = n /\ out = <<>> /\ answer = Nothing

Answer(a) == answer' = a /\ pc' = "done" /\ UNCHANGED <<request, sym, rem, out>>
Full(t) == ~alloc /\ Utf8Len(out \o t) > InlineCapacity

Enter == /\ pc = "enter"
         /\ IF rem = 0 THEN Answer(NoZero) ELSE pc' = "letter" /\ UNCHANGED <<request, sym, rem, out, answer>>
Letters ==
    /\ pc = "letter"
    /\ IF sym > Len(HebrewLetters) THEN Answer(Ok(out))
       ELSE LET l == HebrewLetters[sym] IN
            IF (max > 0 /\ l.v > max) \/ rem < l.v THEN sym' = sym + 1 /\ UNCHANGED <<request, pc, rem, out, answer>>
            ELSE IF rem \in {15, 16} THEN
                IF Full(Teen(rem)) THEN Answer(Oom(Big))
                ELSE out' = out \o Teen(rem) /\ sym' = Len(HebrewLetters) + 1 /\ UNCHANGED <<request, pc, rem, answer>>
            ELSE LET lone == l.v = rem /\ out = <<>>
                     t == IF lone THEN <<Geresh, l.s, Gershayim>> ELSE <<l.s>>
                 IN  IF Full(t) THEN Answer(Oom(Big))
                     ELSE out' = out \o t /\ rem' = rem - l.v /\ UNCHANGED <<request, pc, sym, answer>>
(* Having answered, the next number of the range is asked for.             *)
Again ==
    /\ pc = "done"
    /\ \E r \in Requests : r[1] = max /\ n >= r[2] /\ n < r[3]
    /\ n' = n + 1 /\ rem' = n + 1 /\ pc' = "enter" /\ sym' = 1 /\ out' = <<>> /\ answer' = Nothing
    /\ UNCHANGED <<max, alloc>>
Next == Enter \/ Letters \/ Again
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InType == rem >= 0 /\ (max > 0 => rem <= max)
Right == pc = "done" => answer = (IF alloc THEN HebrewOutcome(Big) ELSE WithoutAlloc(HebrewOutcome(Big), Big))

Marks == {Geresh, Gershayim}
ValueOf(c) == LET i == CHOOSE i \in DOMAIN HebrewLetters : HebrewLetters[i].s = c IN HebrewLetters[i].v
Plain(t) == SelectSeq(t, LAMBDA c : c \notin Marks)
Sum(t) == FoldLeft(LAMBDA acc, c : acc + ValueOf(c), 0, Plain(t))
Reading ==
    pc = "done" /\ answer.r = "ok" =>
        LET t == answer.t
            p == Plain(t)
            e == Len(t)
        IN  /\ Sum(t) = n
            /\ \A i \in 1..(Len(p) - 1) : ValueOf(p[i]) >= ValueOf(p[i + 1])
            /\ \A i \in 1..(Len(p) - 1) : ValueOf(p[i]) = ValueOf(p[i + 1]) => p[i] = Tav
            \* never yod followed by he or vav
            /\ \A i \in 1..(Len(p) - 1) : ~(ValueOf(p[i]) = 10 /\ ValueOf(p[i + 1]) \in {5, 6})
            /\ (n % 100 \in {15, 16}) = (e >= 3 /\ SubSeq(t, e - 2, e) = Teen(IF n % 100 = 16 THEN 16 ELSE 15))
            /\ (Len(p) = 1) = (t[1] = Geresh)
            /\ (Len(p) = 1) => e = 3 /\ t[3] = Gershayim
            /\ Len(p) > 1 /\ n % 100 \notin {15, 16} => t = p
=============================================================================
