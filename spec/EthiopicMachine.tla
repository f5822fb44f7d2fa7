-------------------------- MODULE EthiopicMachine ---------------------------
(***************************************************************************)
(* How Ethiopic numerals are written: two digits at a time from the lowest *)
(* group, each put in front.  A number is grown digit by digit (Grow), and *)
(* each number reached is formatted.                                       *)
(*                                                                         *)
(* Shown: the machine answers what EthiopicOutcome says, with or without   *)
(* room to grow, and a numeral reads back as its number, so that no two    *)
(* numbers share one (C11, C17, C18, C19).                                 *)
(***************************************************************************)
EXTENDS Ethiopic

CONSTANTS GroupSet,    \* the values of groups
          Groups,      \* how many groups
          Allocs

VARIABLES n, groups, alloc, pc, rem, index, out, answer
vars == <<n, groups, alloc, pc, rem, index, out, answer>>
Nothing == [r |-> "none", t |-> <<>>, p |-> <<>>]

Init == /\ n = Zero /\ groups = 0 /\ alloc \in Allocs
        /\ pc = "enter" /\ rem = Zero /\ index = 0 /\ out = <<>> /\ answer = Nothing

Answer(a) == answer' = a /\ pc' = "done" /\ UNCHANGED <<n, groups, alloc, rem, index, out>>

(* Without a heap, putting a character in front may fail.                  *)
RECURSIVE PutFront(_, _)
PutFront(t, cs) ==        \* cs in the order they are put in front; "full" when one does not fit
    IF cs = <<>> THEN <<TRUE, t>>
    ELSE IF ~alloc /\ Utf8Len(t) + Utf8Width(cs[1]) > InlineCapacity THEN <<FALSE, t>>
    ELSE PutFront(<<cs[1]>> \o t, Tail(cs))

Enter == pc = "enter" /\ IF IsZero(n) THEN Answer(NoZero)
                         ELSE pc' = "group" /\ rem' = n /\ UNCHANGED <<n, groups, alloc, index, out, answer>>
OneGroup ==
    /\ pc = "group"
    /\ IF IsZero(rem) THEN Answer(Ok(out))
       ELSE LET a == DivMod(rem, 10)
                b == DivMod(a[1], 10)
                ones == a[2]
                tens == b[2]
                left == b[1]
                none == ones = 0 /\ tens = 0
                odd == index % 2 = 1
                sep == IF index = 0 THEN <<>> ELSE IF ~odd THEN <<EthMyriad>> ELSE IF none THEN <<>> ELSE <<EthHundred>>
                silent == none \/ ((IsZero(left) \/ odd) /\ index > 0 /\ tens = 0 /\ ones = 1)
                digits == IF silent THEN <<>>
                          ELSE (IF ones = 0 THEN <<>> ELSE <<EthOne(ones)>>) \o (IF tens = 0 THEN <<>> ELSE <<EthTen(tens)>>)
                f == PutFront(out, sep \o digits)
            IN  IF ~f[1] THEN Answer(Oom(n))
                ELSE out' = f[2] /\ rem' = left /\ index' = index + 1 /\ UNCHANGED <<n, groups, alloc, pc, answer>>
(* The number with one more group at its end is asked for.                 *)
Grow ==
    /\ pc = "done" /\ groups < Groups
    /\ \E g \in GroupSet : n' = MulAdd(n, 100, g)
    /\ groups' = groups + 1
    /\ pc' = "enter" /\ rem' = Zero /\ index' = 0 /\ out' = <<>> /\ answer' = Nothing
    /\ UNCHANGED alloc
Next == Enter \/ OneGroup \/ Grow
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Right == pc = "done" => answer = (IF alloc THEN EthiopicOutcome(n) ELSE WithoutAlloc(EthiopicOutcome(n), n))

(* Reading back: myriads part the text; in each, the hundred sign parts the *)
(* upper from the lower group, and an unwritten one is worth 1.            *)
RECURSIVE Myriads(_)
Myriads(t) ==
    IF \E i \in DOMAIN t : t[i] = EthMyriad
    THEN LET i == CHOOSE i \in DOMAIN t : t[i] = EthMyriad /\ \A j \in 1..(i - 1) : t[j] # EthMyriad
         IN  <<SubSeq(t, 1, i - 1)>> \o Myriads(SubSeq(t, i + 1, Len(t)))
    ELSE <<t>>
Letters(t) == FoldLeft(LAMBDA acc, c : acc + (IF c >= EthTen(1) THEN 10 * (c - EthTen(0)) ELSE c - EthOne(0)), 0, t)
Parts(t) == IF \E i \in DOMAIN t : t[i] = EthHundred
            THEN LET i == CHOOSE i \in DOMAIN t : t[i] = EthHundred
                     up == Letters(SubSeq(t, 1, i - 1))
                 IN  100 * (IF up = 0 THEN 1 ELSE up) + Letters(SubSeq(t, i + 1, Len(t)))
            ELSE Letters(t)
EthiopicValue(t) ==
    LET ms == Myriads(t)
        value(i) == IF i = 1 /\ ms[1] = <<>> THEN 1 ELSE Parts(ms[i])
    IN  FoldLeft(LAMBDA acc, i : MulAdd(acc, Radix, value(i)), Zero, [i \in DOMAIN ms |-> i])
ReadsBack == pc = "done" /\ answer.r = "ok" => EthiopicValue(answer.t) = n
=============================================================================
