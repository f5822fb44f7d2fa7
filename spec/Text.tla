-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode scalar values (code points).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Surrogates == 55296..57343          \* not scalar values
IsScalar(c) == c \in 0..1114111 /\ c \notin Surrogates

(* Bytes a character needs in UTF-8. *)
Utf8Width(c) ==
    IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Utf8Len(t) == FoldLeft(LAMBDA acc, c : acc + Utf8Width(c), 0, t)

(* Lexicographic comparison by code point, which for UTF-8 is the same as  *)
(* comparing bytes: -1, 0 or 1.                                            *)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE LexFrom(a, b, i + 1)
LexCmp(a, b) == LexFrom(a, b, 1)

AsciiUpper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
AsciiLower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]

Repeat(t, k) == IF t = <<>> THEN <<>> ELSE [i \in 1..(k * Len(t)) |-> t[((i - 1) % Len(t)) + 1]]

Concat(ts) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, ts)

(* What formatting a string with {:fill align width .precision} displays.  *)
(* align is "<", "^", ">" or "" (the default, left); width and prec are    *)
(* counted in characters, -1 when absent.                                  *)
Display(t, fill, align, width, prec) ==
    LET cut == IF prec >= 0 /\ Len(t) > prec THEN SubSeq(t, 1, prec) ELSE t
        gap == IF width > Len(cut) THEN width - Len(cut) ELSE 0
        before == IF align = ">" THEN gap ELSE IF align = "^" THEN gap \div 2 ELSE 0
    IN  Repeat(<<fill>>, before) \o cut \o Repeat(<<fill>>, gap - before)
=============================================================================
