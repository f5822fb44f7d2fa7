------------------------------ MODULE Chinese -------------------------------
(***************************************************************************)
(* Chinese numerals, specified on the decimal digits of the number.        *)
(*                                                                         *)
(* A style is [trad, fin, formal : BOOLEAN, scale : string].  Positions    *)
(* count from 0 at the ones digit.  Only non-zero digits are read; a zero  *)
(* is read before a digit when digits were skipped that would otherwise    *)
(* leave a gap; rank words close the parts of the number they multiply.    *)
(***************************************************************************)
EXTENDS BigNat, Outcome

ChZero == \h96F6
OrdinaryDigits == <<\h4E00, \h4E8C, \h4E09, \h56DB, \h4E94, \h516D, \h4E03, \h516B, \h4E5D>>
FinancialSimplified == <<\h58F9, \h8D30, \h53C1, \h8086, \h4F0D, \h9646, \h67D2, \h634C, \h7396>>
FinancialTraditional == <<\h58F9, \h8CB3, \h53C3, \h8086, \h4F0D, \h9678, \h67D2, \h634C, \h7396>>
ChDigits(st) ==
    IF ~st.fin THEN OrdinaryDigits ELSE IF st.trad THEN FinancialTraditional ELSE FinancialSimplified
\* ten, hundred, thousand
ChUnits(st) == IF st.fin THEN <<\h62FE, \h4F70, \h4EDF>> ELSE <<\h5341, \h767E, \h5343>>
\* wan yi zhao jing gai zi rang gou jian zheng zai
ChLarge(st) ==
    IF st.trad THEN <<\h842C, \h5104, \h5146, \h4EAC, \h5793, \h79ED, \h7A70, \h6E9D, \h6F97, \h6B63, \h8F09>>
    ELSE <<\h4E07, \h4EBF, \h5146, \h4EAC, \h5793, \h79ED, \h7A70, \h6C9F, \h6DA7, \h6B63, \h8F7D>>

(* A style is made from the default one, ordinary characters in myriad     *)
(* scale, by applying options; a later scale replaces an earlier one.      *)
ApplyOption(st, o) == IF o = "financial" THEN [st EXCEPT !.fin = TRUE] ELSE [st EXCEPT !.scale = o]
ChineseStyle(trad, formal, opts) ==
    FoldLeft(ApplyOption, [trad |-> trad, fin |-> FALSE, formal |-> formal, scale |-> "myriad"], opts)

(* The power of ten each rank word stands for. *)
RankExponents(scale) ==
    CASE scale = "myriad" -> <<4, 8, 12, 16, 20, 24, 28, 32, 36>>
      [] scale = "mid"    -> <<4, 8, 16, 24, 32>>
      [] scale = "long"   -> <<4, 8, 16, 32>>
      [] scale = "short"  -> <<4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14>>

(* The number is cut in two at the largest rank word used: what is above   *)
(* is the rank word's multiplier, what is below follows it.  Both parts    *)
(* are cut again by the smaller rank words.  SplitAt is the position at    *)
(* which the digits p and q < p part company, -1 if they share a group.    *)
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(exps, p, q, lo, k) ==
    IF k = 0 THEN -1
    ELSE LET cut == lo + exps[k] IN
         IF p < cut THEN SplitAt(exps, p, q, lo, k - 1)
         ELSE IF q >= cut THEN SplitAt(exps, p, q, cut, k - 1)
         ELSE cut

(* Is a zero read between the digit at p and the next digit read, at q < p? *)
(* Zeros that end a group or a multiplier are silent; all others are not.   *)
ZeroBetween(exps, p, q) ==
    LET cut == SplitAt(exps, p, q, 0, Len(exps)) IN
    IF cut = -1 THEN p - q > 1 ELSE q # cut - 1

ShortDigits == 15

ChineseOutcome(st, n) ==
    IF IsZero(n) THEN Ok(<<ChZero>>)
    ELSE
    LET d == DecDigits(n)                       \* most significant first
        size == Len(d)
        D(p) == IF p >= size THEN 0 ELSE d[size - p]
        exps == RankExponents(st.scale)
        unit(p) == IF (st.scale = "short" /\ p >= 4) \/ p % 4 = 0 THEN <<>> ELSE <<ChUnits(st)[p % 4]>>
        \* position of the next digit read above p, or -1
        RECURSIVE above(_)
        above(p) == IF p + 1 >= size THEN -1 ELSE IF D(p + 1) # 0 THEN p + 1 ELSE above(p + 1)
        digit(p) ==
            LET up == above(p)
                zero == IF up # -1 /\ ZeroBetween(exps, up, p) THEN <<ChZero>> ELSE <<>>
                drop == ~st.formal /\ up = -1 /\ D(p) = 1 /\ unit(p) # <<>> /\ p % 4 = 1
            IN  zero \o (IF drop THEN <<>> ELSE <<ChDigits(st)[D(p)]>>) \o unit(p)
        \* the digits at positions lo .. hi-1, using the rank words 1 .. k
        RECURSIVE read(_, _, _)
        read(lo, hi, k) ==
            IF lo >= hi THEN <<>>
            ELSE IF k = 0 THEN
                Concat([j \in 1..(hi - lo) |-> IF D(hi - j) = 0 THEN <<>> ELSE digit(hi - j)])
            ELSE LET cut == lo + exps[k] IN
                IF cut >= hi THEN read(lo, hi, k - 1)
                ELSE LET up == read(cut, hi, k - 1) IN
                     (IF up = <<>> THEN <<>> ELSE Append(up, ChLarge(st)[k])) \o read(lo, cut, k - 1)
    IN  IF st.scale = "short" /\ size > ShortDigits THEN Oob(n)
        ELSE Ok(read(0, size, Len(exps)))

-----------------------------------------------------------------------------
(* Reading a numeral back.                                                 *)

IndexOf(tbl, c) == IF \E i \in 1..Len(tbl) : tbl[i] = c THEN CHOOSE i \in 1..Len(tbl) : tbl[i] = c ELSE 0

ShiftDigits(a, e) ==
    LET whole == a \o [i \in 1..(e \div 4) |-> 0]
        m == e % 4
    IN  IF IsZero(a) THEN a
        ELSE MulAdd(whole, IF m = 0 THEN 1 ELSE IF m = 1 THEN 10 ELSE IF m = 2 THEN 100 ELSE 1000, 0)

(* A part without rank words, below 10000. *)
ReadSmall(st, t) ==
    LET step(acc, c) ==       \* <<sum, pending digit or 0>>
            IF c = ChZero THEN acc
            ELSE IF IndexOf(ChDigits(st), c) # 0 THEN <<acc[1], IndexOf(ChDigits(st), c)>>
            ELSE LET u == IndexOf(ChUnits(st), c)
                     w == IF u = 1 THEN 10 ELSE IF u = 2 THEN 100 ELSE 1000
                 IN  <<acc[1] + (IF acc[2] = 0 THEN 1 ELSE acc[2]) * w, 0>>
        r == FoldLeft(step, <<0, 0>>, t)
    IN  FromInt(r[1] + r[2])

RECURSIVE ReadBack(_, _, _)
ReadBack(st, t, k) ==
    IF t = <<>> THEN Zero
    ELSE IF k = 0 THEN ReadSmall(st, t)
    ELSE LET w == ChLarge(st)[k]
             at == IF \E i \in 1..Len(t) : t[i] = w THEN CHOOSE i \in 1..Len(t) : t[i] = w ELSE 0
         IN  IF at = 0 THEN ReadBack(st, t, k - 1)
             ELSE Add(ShiftDigits(ReadBack(st, SubSeq(t, 1, at - 1), k - 1), RankExponents(st.scale)[k]),
                      ReadBack(st, SubSeq(t, at + 1, Len(t)), k - 1))
ChineseValue(st, t) == ReadBack(st, t, Len(RankExponents(st.scale)))
=============================================================================
