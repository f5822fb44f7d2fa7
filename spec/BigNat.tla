------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of unbounded size for TLC, whose built-in integers have *)
(* 32 bits.  A number is the sequence of its base-10000 limbs, most        *)
(* significant limb first, without leading zero limbs; zero is <<>>.       *)
(* The implementation's u8 .. u128 and usize values all map into this set. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Radix == 10000

IsNat10k(a) ==
    /\ \A i \in 1..Len(a) : a[i] \in 0..(Radix - 1)
    /\ a # <<>> => a[1] # 0

Zero == <<>>
IsZero(a) == a = <<>>

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[1] = 0 THEN Trim(Tail(a)) ELSE a

(* The limbs of a TLC integer. *)
RECURSIVE FromInt(_)
FromInt(i) == IF i = 0 THEN <<>> ELSE Append(FromInt(i \div Radix), i % Radix)

(* The TLC integer of a number below 10^8. *)
ToInt(a) == FoldLeft(LAMBDA acc, d : acc * Radix + d, 0, a)
FitsInt(a) == Len(a) <= 2

(* Quotient and remainder by a TLC integer m with m * Radix < 2^31. *)
DivMod(a, m) ==
    LET step(acc, d) == LET cur == acc[2] * Radix + d IN <<Append(acc[1], cur \div m), cur % m>>
        r == FoldLeft(step, << <<>>, 0>>, a)
    IN  <<Trim(r[1]), r[2]>>

(* a * m + c for TLC integers m, c with m * Radix + c < 2^31. *)
MulAdd(a, m, c) ==
    LET step(d, acc) == LET cur == d * m + acc[2] IN <<<<cur % Radix>> \o acc[1], cur \div Radix>>
        r == FoldRight(step, a, << <<>>, c>>)
    IN  Trim(FromInt(r[2]) \o r[1])

AddInt(a, c) == MulAdd(a, 1, c)

Pad(a, k) == [i \in 1..(k - Len(a)) |-> 0] \o a

(* Comparison: -1, 0 or 1. *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) ==
    IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, 1)
Geq(a, b) == Cmp(a, b) >= 0

(* a - b, for a >= b. *)
Sub(a, b) ==
    LET pb == Pad(b, Len(a))
        step(i, acc) ==
            LET cur == a[i] - pb[i] - acc[2]
            IN  IF cur < 0 THEN << <<cur + Radix>> \o acc[1], 1>> ELSE << <<cur>> \o acc[1], 0>>
        r == FoldRight(step, [i \in 1..Len(a) |-> i], << <<>>, 0>>)
    IN  Trim(r[1])

Add(a, b) ==
    LET k == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        pa == Pad(a, k)
        pb == Pad(b, k)
        step(i, acc) ==
            LET cur == pa[i] + pb[i] + acc[2] IN << <<cur % Radix>> \o acc[1], cur \div Radix>>
        r == FoldRight(step, [i \in 1..k |-> i], << <<>>, 0>>)
    IN  Trim(<<r[2]>> \o r[1])

(* The k-th decimal digit, counting from 0 at the least significant. *)
DigitAt(a, k) ==
    LET limb == Len(a) - (k \div 4)
        p == k % 4
        w == IF p = 0 THEN 1 ELSE IF p = 1 THEN 10 ELSE IF p = 2 THEN 100 ELSE 1000
    IN  IF limb < 1 THEN 0 ELSE (a[limb] \div w) % 10

(* All decimal digits, most significant first; <<>> for zero. *)
DecDigits(a) ==
    Trim(FoldLeft(LAMBDA acc, d : acc \o <<d \div 1000, (d \div 100) % 10, (d \div 10) % 10, d % 10>>, <<>>, a))
=============================================================================
