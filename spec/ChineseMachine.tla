--------------------------- MODULE ChineseMachine ---------------------------
(***************************************************************************)
(* How Chinese numerals are written: by dividing the number by the rank    *)
(* words from the largest the type can hold, spelling quotient and         *)
(* remainder with the smaller ones, and carrying along whether the last    *)
(* character read was a zero.  This is the recursive procedure; the        *)
(* specification (Chinese) speaks of digits only.                          *)
(*                                                                         *)
(* A number is grown group by group (Grow), and what the procedure makes   *)
(* of it in each style and in each type that holds it is compared with     *)
(* ChineseOutcome (C12, C13, C16); numerals read back (C13, C17); and the  *)
(* rules of C12 that can be seen on the text hold.                         *)
(***************************************************************************)
EXTENDS Chinese, FiniteSets, TLC

CONSTANTS Pieces,      \* what is appended: digit strings, as <<number of digits, value>>
          MaxDigits,
          Styles

VARIABLES n, digits
vars == <<n, digits>>

Pow10(e) == ShiftDigits(<<1>>, e)
\* the largest values of u8, u16, u32, u64 and u128
Maxima == << <<255>>, <<6, 5535>>, <<42, 9496, 7295>>, <<1844, 6744, 737, 955, 1615>>,
             <<340, 2823, 6692, 938, 4634, 6337, 4607, 4317, 6821, 1455>> >>

Digit(st, d) == IF d = 0 THEN ChZero ELSE ChDigits(st)[d]
None == [ok |-> FALSE, t |-> <<>>, z |-> FALSE]
Text(t, z) == [ok |-> TRUE, t |-> t, z |-> z]

(* A number below 10000; pre: something came before it; z: that ended in   *)
(* a zero.                                                                 *)
Small(st, v, pre, z) ==
    LET place(acc, i) ==            \* i = 3, 2, 1: thousands, hundreds, tens
            LET w == IF i = 3 THEN 1000 ELSE IF i = 2 THEN 100 ELSE IF i = 1 THEN 10 ELSE 1
                d == (v \div w) % 10
                next == IF i = 0 THEN 0 ELSE (v \div (w \div 10)) % 10
                before == acc.t # <<>> \/ pre
            IN  IF d = 0 THEN
                    IF i > 0 /\ before /\ ~acc.z /\ next # 0 THEN Text(Append(acc.t, ChZero), TRUE) ELSE acc
                ELSE LET omit == i = 1 /\ ~st.formal /\ ~before /\ ~acc.z /\ d = 1
                     IN  Text(acc.t \o (IF omit THEN <<>> ELSE <<ChDigits(st)[d]>>)
                                    \o (IF i = 0 THEN <<>> ELSE <<ChUnits(st)[i]>>), FALSE)
        r == FoldLeft(place, Text(<<>>, z), <<3, 2, 1, 0>>)
    IN  r

(* v div 10^e and v mod 10^e.                                              *)
Part(v, e) ==
    LET keep == Len(v) - e \div 4 IN        \* e is a multiple of 4 here
    IF keep <= 0 THEN <<Zero, v>> ELSE <<SubSeq(v, 1, keep), Trim(SubSeq(v, keep + 1, Len(v)))>>

(* The rank words 1 .. k that the type can hold.                           *)
RECURSIVE Scaled(_, _, _, _, _, _)
Scaled(st, exps, k, v, pre, z) ==
    IF k = 0 THEN Small(st, ToInt(v), pre, z)
    ELSE LET cut == Part(v, exps[k])
             \* a multiplier too large for the next rank word cannot be written
             factor == IF k < Len(exps) THEN Pow10(exps[k + 1] - exps[k])
                       ELSE IF k > 1 THEN Pow10(exps[k] - exps[k - 1]) ELSE Zero
         IN  IF ~IsZero(factor) /\ Geq(cut[1], factor) THEN None
             ELSE LET up == IF IsZero(cut[1]) THEN Text(<<>>, z) ELSE Scaled(st, exps, k - 1, cut[1], pre, z)
                      head == IF up.t = <<>> THEN up ELSE Text(Append(up.t, ChLarge(st)[k]), FALSE)
                  IN  IF ~up.ok THEN None
                      ELSE IF IsZero(cut[2]) THEN (IF IsZero(cut[1]) THEN Text(<<>>, z) ELSE head)
                      ELSE LET skipped == head.t # <<>> /\ Cmp(cut[2], Pow10(exps[k] - 4)) < 0
                               h == IF skipped THEN Text(Append(head.t, ChZero), TRUE) ELSE head
                               low == Scaled(st, exps, k - 1, cut[2], h.t # <<>> \/ pre, h.z)
                           IN  IF low.ok THEN Text(h.t \o low.t, low.z) ELSE None

RECURSIVE ShortRank(_, _, _, _, _, _)
ShortRank(st, rank, v, t, z, lead) ==
    IF IsZero(v) \/ rank = 0 THEN
        (IF IsZero(v) THEN Text(t, z) ELSE LET low == Small(st, ToInt(v), TRUE, z) IN Text(t \o low.t, low.z))
    ELSE LET q == DecDigits(v)
             e == rank + 3
             d == IF Len(q) > e THEN q[1] ELSE 0
             rest == IF Len(q) > e THEN Sub(v, ShiftDigits(<<d>>, e)) ELSE v
         IN  IF Len(q) > e + 1 THEN None
             ELSE IF d = 0 THEN
                IF t # <<>> /\ ~z THEN ShortRank(st, rank - 1, rest, Append(t, ChZero), TRUE, FALSE)
                ELSE ShortRank(st, rank - 1, rest, t, z, lead)
             ELSE ShortRank(st, rank - 1, rest, t \o <<ChDigits(st)[d], ChLarge(st)[rank]>>, FALSE, FALSE)

Machine(st, max, v) ==
    IF IsZero(v) THEN Ok(<<ChZero>>)
    ELSE IF Cmp(v, <<1, 0>>) < 0 THEN Ok(Small(st, ToInt(v), FALSE, FALSE).t)
    ELSE LET exps == RankExponents(st.scale)
             fit == Cardinality({i \in DOMAIN exps : Cmp(Pow10(exps[i]), max) <= 0})
             r == IF st.scale = "short" THEN ShortRank(st, fit, v, <<>>, FALSE, TRUE)
                  ELSE Scaled(st, SubSeq(exps, 1, fit), fit, v, FALSE, FALSE)
         IN  IF r.ok THEN Ok(r.t) ELSE Oob(v)

-----------------------------------------------------------------------------
Init == n = Zero /\ digits = 0
Grow == \E p \in Pieces :
    /\ digits + p[1] <= MaxDigits
    /\ p[2] # 0 \/ digits > 0
    /\ n' = Add(ShiftDigits(n, p[1]), FromInt(p[2]))
    /\ digits' = digits + p[1]
    /\ Cmp(n', Maxima[5]) <= 0
Spec == Init /\ [][Grow]_vars

-----------------------------------------------------------------------------
Right == \A st \in Styles : LET e == ChineseOutcome(st, n) IN
    \A i \in DOMAIN Maxima : Cmp(n, Maxima[i]) <= 0 => Machine(st, Maxima[i], n) = e

ReadsBack == \A st \in Styles : LET o == ChineseOutcome(st, n) IN
    IF st.scale = "short" /\ Geq(n, Pow10(15)) THEN o = Oob(n)
    ELSE o.r = "ok" /\ (~IsZero(n) => ChineseValue(st, o.t) = n)

(* No zero begins or ends a numeral, stands next to another, or comes      *)
(* before a unit or a rank word.                                           *)
ZerosOnText == \A st \in Styles : LET o == ChineseOutcome(st, n) IN
    o.r = "ok" /\ ~IsZero(n) =>
        \A i \in DOMAIN o.t : o.t[i] = ChZero =>
            i > 1 /\ i < Len(o.t) /\ o.t[i + 1] \in ToSet(ChDigits(st))
(* Informal styles drop the one of a leading ten; nothing else changes.    *)
InformalTens == \A st \in Styles : st.formal =>
    LET f == ChineseOutcome(st, n)
        i == ChineseOutcome([st EXCEPT !.formal = FALSE], n)
    IN  f.r = "ok" =>
        IF Len(f.t) >= 2 /\ f.t[1] = ChDigits(st)[1] /\ f.t[2] = ChUnits(st)[1] THEN i = Ok(Tail(f.t)) ELSE i = f
(* The variants differ in their characters only.                           *)
Swap(a, b, c) ==
    IF IndexOf(ChDigits(a), c) # 0 THEN ChDigits(b)[IndexOf(ChDigits(a), c)]
    ELSE IF IndexOf(ChUnits(a), c) # 0 THEN ChUnits(b)[IndexOf(ChUnits(a), c)]
    ELSE IF IndexOf(ChLarge(a), c) # 0 THEN ChLarge(b)[IndexOf(ChLarge(a), c)] ELSE c
SameInVariants == \A st \in Styles : ~st.trad /\ ~st.fin =>
    LET a == ChineseOutcome(st, n) IN
    \A tr, fi \in BOOLEAN : LET other == [st EXCEPT !.trad = tr, !.fin = fi] IN
        ChineseOutcome(other, n).t = [i \in DOMAIN a.t |-> Swap(st, other, a.t[i])]
=============================================================================
