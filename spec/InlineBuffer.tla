---------------------------- MODULE InlineBuffer ----------------------------
(***************************************************************************)
(* How nominal strings are stored: an inline buffer of InlineCapacity      *)
(* bytes, filled from its start or, in reverse strings, up to its end, and *)
(* a heap text once the buffer is too small.  Everything outside the used  *)
(* part of the buffer is Junk that must never be read.  Each operation is  *)
(* described as the copying it performs.                                   *)
(*                                                                         *)
(* Refines NominalStr: what a string is (Abs) changes exactly as NominalStr*)
(* says, whatever the representation.                                      *)
(***************************************************************************)
EXTENDS NominalStr, TLC

CONSTANTS Slots,      \* how many strings
          HasAlloc,   \* is there a heap?
          Chars,      \* the characters used
          Strings,    \* the texts appended at once
          MaxHeap     \* bound on heap texts, in characters

Cap == InlineCapacity
Junk == <<0, 0>>
NoRep == [kind |-> "none", rev |-> FALSE, len |-> 0, bytes |-> <<>>, text |-> <<>>]

(* The bytes of a text; byte k of character c is <<c, k>>. *)
Bytes(t) == Concat([i \in DOMAIN t |-> [k \in 1..Utf8Width(t[i]) |-> <<t[i], k>>]])
(* The text of well-formed bytes; Junk or torn characters decode to <<-1>>. *)
RECURSIVE Decode(_)
Decode(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET c == b[1][1]
             w == Utf8Width(c)
         IN  IF Len(b) < w \/ \E k \in 1..w : b[k] # <<c, k>> \/ b[k] = Junk THEN <<-1>>
             ELSE <<c>> \o Decode(SubSeq(b, w + 1, Len(b)))

Offset(r) == IF r.rev THEN Cap - r.len ELSE 0
Used(r) == SubSeq(r.bytes, Offset(r) + 1, Offset(r) + r.len)
TextOf(r) == IF r.kind = "heap" THEN r.text ELSE Decode(Used(r))

Blank == [i \in 1..Cap |-> Junk]
Inline(rev) == [kind |-> "inline", rev |-> rev, len |-> 0, bytes |-> Blank, text |-> <<>>]
Heap(t) == [kind |-> "heap", rev |-> FALSE, len |-> 0, bytes |-> <<>>, text |-> t]

(* Buffer operations; positions count from 0 as in the code. *)
CopyWithin(b, from, to, dest) ==
    [i \in 1..Cap |-> IF i - 1 >= dest /\ i - 1 < dest + (to - from) THEN b[from + (i - 1 - dest) + 1] ELSE b[i]]
Write(b, at, bs) == [i \in 1..Cap |-> IF i - 1 >= at /\ i - 1 < at + Len(bs) THEN bs[i - at] ELSE b[i]]
(* Whatever is not part of the text any more is junk from now on. *)
Settle(r) == [r EXCEPT !.bytes = [i \in 1..Cap |-> IF i - 1 >= Offset(r) /\ i - 1 < Offset(r) + r.len THEN r.bytes[i] ELSE Junk]]
With(r, len, bytes) == Settle([r EXCEPT !.len = len, !.bytes = bytes])

(* Append a text that fits. *)
InlineAppend(r, t) ==
    LET n == r.len + Utf8Len(t) IN
    IF r.rev THEN With(r, n, Write(CopyWithin(r.bytes, Offset(r), Cap, Cap - n), Cap - Utf8Len(t), Bytes(t)))
    ELSE With(r, n, Write(r.bytes, r.len, Bytes(t)))
(* Put a character that fits in front. *)
InlineFront(r, c) ==
    LET w == Utf8Width(c)
        n == r.len + w
    IN  IF r.rev THEN With(r, n, Write(r.bytes, Cap - n, Bytes(<<c>>)))
        ELSE With(r, n, Write(CopyWithin(r.bytes, 0, r.len, w), 0, Bytes(<<c>>)))

(* <<representation', reply>> *)
Append1(r, t) ==
    IF r.kind = "heap" THEN <<Heap(r.text \o t), Done>>
    ELSE IF r.len + Utf8Len(t) <= Cap THEN <<InlineAppend(r, t), Done>>
    ELSE IF HasAlloc THEN <<Heap(TextOf(r) \o t), Done>>
    ELSE <<r, Full>>
Front1(r, c) ==
    IF r.kind = "heap" THEN <<Heap(<<c>> \o r.text), Done>>
    ELSE IF r.len + Utf8Width(c) <= Cap THEN <<InlineFront(r, c), Done>>
    ELSE IF HasAlloc THEN <<Heap(<<c>> \o TextOf(r)), Done>>
    ELSE <<r, Full>>
FromText(t) == IF Utf8Len(t) <= Cap THEN InlineAppend(Inline(FALSE), t) ELSE Heap(t)
MapBytes(r, f(_)) ==
    IF r.kind = "heap" THEN [r EXCEPT !.text = f(@)]
    ELSE With(r, r.len, Write(r.bytes, Offset(r), Bytes(f(TextOf(r)))))

-----------------------------------------------------------------------------
VARIABLES reps, op, reply
vars == <<reps, op, reply>>

Abs == [i \in 1..Slots |-> IF reps[i].kind = "none" THEN NoStr ELSE Str(TextOf(reps[i]), reps[i].kind = "heap")]

Init == reps = [i \in 1..Slots |-> NoRep] /\ op = [op |-> "init"] /\ reply = Done

Act(o, r, a) == /\ Enabled(Abs, o, HasAlloc)
                /\ reps' = [reps EXCEPT ![o.d] = r]
                /\ op' = o
                /\ reply' = a

O(name, d, t) == [op |-> name, d |-> d, s |-> d, t |-> t]
New(d)     == Act(O("new", d, <<>>), Inline(FALSE), Done)
NewReverse(d) == Act(O("rev", d, <<>>), Inline(TRUE), Done)
FromStr(d) == \E t \in Strings : Act(O("str", d, t), FromText(t), Done)
FromOwned(d) == \E t \in Strings : Act(O("own", d, t), Heap(t), Done)
FromChar(d) == \E c \in Chars : Act(O("char", d, <<c>>), InlineAppend(Inline(FALSE), <<c>>), Done)
Push(d)    == reps[d].kind # "none" /\ \E c \in Chars : LET x == Append1(reps[d], <<c>>) IN Act(O("push", d, <<c>>), x[1], x[2])
PushStr(d) == reps[d].kind # "none" /\ \E t \in Strings : LET x == Append1(reps[d], t) IN Act(O("pstr", d, t), x[1], x[2])
PushFront(d) == reps[d].kind # "none" /\ \E c \in Chars : LET x == Front1(reps[d], c) IN Act(O("front", d, <<c>>), x[1], x[2])
Upper(d)   == reps[d].kind # "none" /\ Act(O("upper", d, <<>>), MapBytes(reps[d], AsciiUpper), Done)
Lower(d)   == reps[d].kind # "none" /\ Act(O("lower", d, <<>>), MapBytes(reps[d], AsciiLower), Done)
CloneOf(d) == \E s \in 1..Slots : reps[s].kind # "none" /\ Act([op |-> "clone", d |-> d, s |-> s, t |-> <<>>], reps[s], Done)
TakeHeap(d) == reps[d].kind # "none" /\
    IF reps[d].kind = "heap" THEN Act(O("take", d, <<>>), NoRep, Gave(reps[d].text))
    ELSE Act(O("take", d, <<>>), reps[d], Kept)
Into(d)    == reps[d].kind # "none" /\ Act(O("into", d, <<>>), NoRep, Gave(TextOf(reps[d])))
Drop(d)    == reps[d].kind # "none" /\ Act(O("drop", d, <<>>), NoRep, Done)

Next == \E d \in 1..Slots :
    \/ New(d) \/ NewReverse(d) \/ FromStr(d) \/ FromOwned(d) \/ FromChar(d)
    \/ Push(d) \/ PushStr(d) \/ PushFront(d) \/ Upper(d) \/ Lower(d)
    \/ CloneOf(d) \/ TakeHeap(d) \/ Into(d) \/ Drop(d)
Spec == Init /\ [][Next]_vars

View == reps
Bounded == \A i \in 1..Slots : Len(reps[i].text) <= MaxHeap

-----------------------------------------------------------------------------
RepOk == \A i \in 1..Slots : LET r == reps[i] IN
    /\ r.kind = "inline" => r.len \in 0..Cap /\ Len(r.bytes) = Cap
    /\ r.kind = "heap" => HasAlloc
    /\ r.kind # "none" => StrOk(Abs[i], HasAlloc)
(* Inline and heap never disagree with the text's size. *)
TextsOk == \A i \in 1..Slots : -1 \notin ToSet(TextOf(reps[i]))

Refines == [][LET d == Do(Abs, op', HasAlloc) IN Abs' = d[1] /\ reply' = d[2]]_vars
=============================================================================
