------------------------------ MODULE Additive ------------------------------
(***************************************************************************)
(* Additive systems.  A set is a sequence of [s |-> symbol text,           *)
(* v |-> value as a BigNat] in strictly descending value order; a last     *)
(* symbol of value zero is the zero symbol.                                *)
(***************************************************************************)
EXTENDS BigNat, Outcome

Descends(vs) == \A i \in 1..(Len(vs) - 1) : Cmp(vs[i], vs[i + 1]) > 0

HasZeroSymbol(set) == set # <<>> /\ IsZero(set[Len(set)].v)

(* <<how often v goes into rem, but no more than LongLimit + 1, the rest>>  *)
RECURSIVE Times(_, _)
Times(rem, v) ==
    IF ~Geq(rem, v) THEN <<0, rem>>
    ELSE LET half == Times(rem, Add(v, v))
             odd == Geq(half[2], v)
             k == 2 * half[1] + (IF odd THEN 1 ELSE 0)
         IN  <<IF k > LongLimit THEN LongLimit + 1 ELSE k, IF odd THEN Sub(half[2], v) ELSE half[2]>>

(* Greedy: each symbol as often as it fits.  <<what is left, the text, its  *)
(* symbols counted>>; the text is not meaningful beyond LongLimit symbols. *)
Greedy(set, n) ==
    LET step(acc, sym) ==
            IF IsZero(sym.v) THEN acc
            ELSE LET q == Times(acc[1], sym.v) IN
                 IF q[1] = 0 THEN acc
                 ELSE IF acc[3] + q[1] > LongLimit THEN <<q[2], <<>>, LongLimit + 1>>
                 ELSE <<q[2], acc[2] \o Repeat(sym.s, q[1]), acc[3] + q[1]>>
    IN  FoldLeft(step, <<n, <<>>, 0>>, set)

AdditiveOutcome(set, n) ==
    IF IsZero(n) THEN (IF HasZeroSymbol(set) THEN Ok(set[Len(set)].s) ELSE NoZero)
    ELSE LET g == Greedy(set, n) IN
         IF g[3] > LongLimit THEN Long
         ELSE IF IsZero(g[1]) THEN Ok(g[2])
         ELSE Oob(n)

(* Without allocation a number may both be unrepresentable and overflow    *)
(* the inline buffer on the way; either error is right then.               *)
AttemptTooLong(set, n) ==
    LET g == Greedy(set, n) IN g[3] > LongLimit \/ Utf8Len(g[2]) > InlineCapacity
=============================================================================
