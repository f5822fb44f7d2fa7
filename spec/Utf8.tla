-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* The bytes of texts.  A text grows one character at a time; beside it a  *)
(* second one does.  Shown: encoding is unambiguous and comparing bytes,   *)
(* as the implementation does, is comparing code points (C03); appending,  *)
(* prepending and ASCII case mapping of bytes are those of texts (C01);    *)
(* and Display counts characters, cuts and pads as format parameters       *)
(* demand (C03).                                                           *)
(***************************************************************************)
EXTENDS Text, FiniteSets

CONSTANTS Chars, MaxLen, Fills, Widths

VARIABLES a, b
vars == <<a, b>>

Cont(c, s) == 128 + ((c \div s) % 64)
Encode1(c) ==
    CASE Utf8Width(c) = 1 -> <<c>>
      [] Utf8Width(c) = 2 -> <<192 + c \div 64, Cont(c, 1)>>
      [] Utf8Width(c) = 3 -> <<224 + c \div 4096, Cont(c, 64), Cont(c, 1)>>
      [] OTHER -> <<240 + c \div 262144, Cont(c, 4096), Cont(c, 64), Cont(c, 1)>>
Encode(t) == Concat([i \in DOMAIN t |-> Encode1(t[i])])

WidthOf(byte) == IF byte < 128 THEN 1 ELSE IF byte < 224 THEN 2 ELSE IF byte < 240 THEN 3 ELSE 4
RECURSIVE Decode(_)
Decode(bs) ==
    IF bs = <<>> THEN <<>>
    ELSE LET w == WidthOf(bs[1])
             low(i) == bs[i] % 64
             c == CASE w = 1 -> bs[1]
                    [] w = 2 -> (bs[1] - 192) * 64 + low(2)
                    [] w = 3 -> (bs[1] - 224) * 4096 + low(2) * 64 + low(3)
                    [] OTHER -> (bs[1] - 240) * 262144 + low(2) * 4096 + low(3) * 64 + low(4)
         IN  <<c>> \o Decode(SubSeq(bs, w + 1, Len(bs)))

Init == a = <<>> /\ b = <<>>
Next == \E c \in Chars : \/ Len(a) < MaxLen /\ a' = Append(a, c) /\ UNCHANGED b
                         \/ Len(b) < MaxLen /\ b' = <<c>> \o b /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Lengths == Len(Encode(a)) = Utf8Len(a)
RoundTrip == Decode(Encode(a)) = a
IsBytes == \A i \in DOMAIN Encode(a) : Encode(a)[i] \in 0..255
SameOrder == LexCmp(Encode(a), Encode(b)) = LexCmp(a, b)
Joins == Encode(a \o b) = Encode(a) \o Encode(b)
Cases == AsciiUpper(Encode(a)) = Encode(AsciiUpper(a)) /\ AsciiLower(Encode(a)) = Encode(AsciiLower(a))
Antisymmetric == LexCmp(a, b) = -LexCmp(b, a) /\ (LexCmp(a, b) = 0) = (a = b)

Pads ==
    b = <<>> =>
    \A w \in Widths, p \in Widths, al \in {"", "<", "^", ">"}, f \in Fills :
        LET d == Display(a, f, al, w, p)
            shown == IF p >= 0 /\ p < Len(a) THEN p ELSE Len(a)
            at == IF Len(d) = shown THEN 0 ELSE IF al = ">" THEN Len(d) - shown ELSE IF al = "^" THEN (Len(d) - shown) \div 2 ELSE 0
        IN  /\ Len(d) = IF w > shown THEN w ELSE shown
            /\ SubSeq(d, at + 1, at + shown) = SubSeq(a, 1, shown)
            /\ \A i \in DOMAIN d : i <= at \/ i > at + shown => d[i] = f
=============================================================================
