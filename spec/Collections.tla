---------------------------- MODULE Collections -----------------------------
(***************************************************************************)
(* Digit collections, their combinators, and the systems they form.        *)
(*                                                                         *)
(* A collection is a record whose field c says what it is:                 *)
(*   "none"      the empty collection used as "no fallback"                *)
(*   "set"       a digit set: syms (sequence of code points), zero         *)
(*   "range"     a user collection with the len consecutive code points    *)
(*               from base; zero, zb (counts from zero), fixed, fb         *)
(*   "one"       one-based view of a                                       *)
(*   "chain"     a then b                                                  *)
(*   "restrict"  the first k digits of a                                   *)
(*   "fixedset"  syms with zero, zb, and a fallback fb: a fixed collection *)
(***************************************************************************)
EXTENDS BigNat, Outcome

None == [c |-> "none"]
Set(syms, zero) == [c |-> "set", syms |-> syms, zero |-> zero]

Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE CLen(_)
CLen(x) ==
    CASE x.c = "none"     -> 0
      [] x.c = "set"      -> Len(x.syms)
      [] x.c = "fixedset" -> Len(x.syms)
      [] x.c = "range"    -> x.len
      [] x.c = "one"      -> CLen(x.a)
      [] x.c = "chain"    -> CLen(x.a) + CLen(x.b)
      [] x.c = "restrict" -> Min2(x.k, CLen(x.a))

RECURSIVE CHasZero(_)
CHasZero(x) ==
    CASE x.c = "none" -> FALSE
      [] x.c \in {"set", "range", "fixedset"} -> x.zero
      [] x.c \in {"one", "chain", "restrict"} -> CHasZero(x.a)

(* Counting from zero; only meaningful for collections without a zero. *)
RECURSIVE CZeroBased(_)
CZeroBased(x) ==
    CASE x.c \in {"none", "set"} -> TRUE
      [] x.c \in {"range", "fixedset"} -> x.zb
      [] x.c = "one" -> FALSE
      [] x.c \in {"chain", "restrict"} -> CZeroBased(x.a)

RECURSIVE CFixed(_)
CFixed(x) ==
    CASE x.c \in {"none", "set", "chain"} -> FALSE
      [] x.c = "fixedset" -> TRUE
      [] x.c = "range" -> x.fixed
      [] x.c \in {"one", "restrict"} -> CFixed(x.a)

RECURSIVE CFallback(_)
CFallback(x) ==
    CASE x.c \in {"none", "set", "chain"} -> None
      [] x.c \in {"range", "fixedset"} -> x.fb
      [] x.c \in {"one", "restrict"} -> CFallback(x.a)

(* The digit at 0-based index i < CLen(x). *)
RECURSIVE CDigit(_, _)
CDigit(x, i) ==
    CASE x.c \in {"set", "fixedset"} -> x.syms[i + 1]
      [] x.c = "range" -> x.base + i
      [] x.c \in {"one", "restrict"} -> CDigit(x.a, i)
      [] x.c = "chain" -> IF i < CLen(x.a) THEN CDigit(x.a, i) ELSE CDigit(x.b, i - CLen(x.a))

(* The plain digit list of a collection. *)
CDigits(x) == [i \in 1..CLen(x) |-> CDigit(x, i - 1)]

(* Counts from one: 0 has no representation. *)
OneBased(x) == ~CHasZero(x) /\ ~CZeroBased(x)

-----------------------------------------------------------------------------
(* Numerals as sequences of 0-based digit indices, most significant first. *)

(* The ordinary base-b numeral, b >= 2, of n > 0. *)
RECURSIVE Numeral(_, _)
Numeral(n, b) ==
    IF IsZero(n) THEN <<>>
    ELSE LET qr == DivMod(n, b) IN Append(Numeral(qr[1], b), qr[2])

(* The m-th non-empty word (m >= 1) over b letters, shortest first and in  *)
(* letter order within one length.                                         *)
PredNat(m) == Sub(m, <<1>>)
RECURSIVE Word(_, _)
Word(m, b) ==
    IF IsZero(m) THEN <<>>
    ELSE LET qr == DivMod(PredNat(m), b) IN Append(Word(qr[1], b), qr[2])

(* The number whose base-b numeral is d. *)
NumeralValue(d, b) == FoldLeft(LAMBDA acc, i : MulAdd(acc, b, i), Zero, d)
(* The rank (from 1) of the word d over b letters. *)
WordRank(d, b) == FoldLeft(LAMBDA acc, i : MulAdd(acc, b, i + 1), Zero, d)

RECURSIVE CollOutcome(_, _)
CollOutcome(x, n) ==
    LET len == CLen(x)
        ob  == OneBased(x)
        ln  == FromInt(len)
        beyond == IF ob THEN Cmp(n, ln) > 0 ELSE Geq(n, ln)
        spell(d) == Ok([i \in 1..Len(d) |-> CDigit(x, d[i])])
    IN  IF CFixed(x) /\ beyond THEN
            IF CLen(CFallback(x)) = 0 THEN Oob(n) ELSE CollOutcome(CFallback(x), n)
        ELSE IF ob /\ IsZero(n) THEN NoZero
        ELSE IF len = 0 THEN Oob(n)
        ELSE IF CHasZero(x) THEN
            IF IsZero(n) THEN spell(<<0>>)
            ELSE IF len = 1 THEN Oob(n)
            ELSE spell(Numeral(n, len))
        ELSE LET m == IF ob THEN n ELSE AddInt(n, 1) IN
            IF len = 1 /\ Cmp(m, FromInt(LongLimit)) > 0 THEN Long
            ELSE spell(Word(m, len))

-----------------------------------------------------------------------------
(* Counting: the successor of a numeral, as an odometer turns it.          *)
RECURSIVE Turn(_, _, _)
Turn(d, b, zero) ==
    IF d = <<>> THEN (IF zero THEN <<1>> ELSE <<0>>)
    ELSE LET k == Len(d) IN
         IF d[k] < b - 1 THEN [d EXCEPT ![k] = @ + 1]
         ELSE Append(Turn(SubSeq(d, 1, k - 1), b, zero), 0)

(* The digit index of a symbol. *)
IndexIn(x, s) == CHOOSE i \in 0..(CLen(x) - 1) : CDigit(x, i) = s
Successor(x, t) ==
    LET d == [i \in 1..Len(t) |-> IndexIn(x, t[i])]
        e == Turn(d, CLen(x), CHasZero(x))
    IN  [i \in 1..Len(e) |-> CDigit(x, e[i])]
=============================================================================
