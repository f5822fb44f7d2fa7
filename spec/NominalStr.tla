----------------------------- MODULE NominalStr -----------------------------
(***************************************************************************)
(* Nominal strings: a handful of named slots, each empty-handed (NoStr) or *)
(* holding one string, and the public operations on them.  A string is its *)
(* text and whether it has moved to the heap.  Each operation is a         *)
(* deterministic step from the slots to new slots and a reply.             *)
(***************************************************************************)
EXTENDS Outcome

NoStr == [live |-> FALSE, t |-> <<>>, heap |-> FALSE]
Str(t, heap) == [live |-> TRUE, t |-> t, heap |-> heap]
TooLong(t) == Utf8Len(t) > InlineCapacity

(* Replies: ok, oom, or the text that was handed out. *)
Done == [r |-> "ok", t |-> <<>>]
Full == [r |-> "oom", t |-> <<>>]
Gave(t) == [r |-> "text", t |-> t]
Kept == [r |-> "inline", t |-> <<>>]

(* A string grows to text t: it leaves the inline buffer when t no longer  *)
(* fits, or, without a heap, refuses and stays as it is.                   *)
Grow(s, t, alloc) ==
    IF alloc THEN <<Str(t, s.heap \/ TooLong(t)), Done>>
    ELSE IF TooLong(t) THEN <<s, Full>> ELSE <<Str(t, FALSE), Done>>

Ascii(op, t) == IF op = "upper" THEN AsciiUpper(t) ELSE AsciiLower(t)

(* <<slots', reply>> of operation o. *)
Do(slots, o, alloc) ==
    LET s == slots[o.d]
        put(x) == [slots EXCEPT ![o.d] = x]
        grow(t) == LET g == Grow(s, t, alloc) IN <<put(g[1]), g[2]>>
    IN  CASE o.op \in {"new", "rev", "def"} -> <<put(Str(<<>>, FALSE)), Done>>
          [] o.op \in {"str", "strref"} -> <<put(Str(o.t, TooLong(o.t))), Done>>
          [] o.op = "own"   -> <<put(Str(o.t, TRUE)), Done>>
          [] o.op = "char"  -> <<put(Str(o.t, FALSE)), Done>>
          [] o.op = "push"  -> grow(s.t \o o.t)
          [] o.op = "pstr"  -> grow(s.t \o o.t)
          [] o.op = "front" -> grow(o.t \o s.t)
          [] o.op \in {"upper", "lower"} -> <<put([s EXCEPT !.t = Ascii(o.op, @)]), Done>>
          [] o.op = "clone" -> <<put(slots[o.s]), Done>>
          \* take the heap string out; an inline string is handed back as it was
          [] o.op = "take"  -> IF s.heap THEN <<put(NoStr), Gave(s.t)>> ELSE <<slots, Kept>>
          [] o.op = "into"  -> <<put(NoStr), Gave(s.t)>>
          [] o.op = "drop"  -> <<put(NoStr), Done>>
          \* a formatted nominal: inline whenever it fits
          [] o.op = "fmt"   -> <<put(Str(o.t, TooLong(o.t))), Done>>

NeedsHeap == {"own", "strref", "clone", "take", "into"}
NeedsString == {"push", "pstr", "front", "upper", "lower", "take", "into", "drop"}
Enabled(slots, o, alloc) ==
    /\ o.op \in NeedsString => slots[o.d].live
    /\ o.op = "clone" => slots[o.s].live
    /\ o.op \in NeedsHeap => alloc
    /\ o.op = "str" /\ ~alloc => ~TooLong(o.t)

-----------------------------------------------------------------------------
(* The invariant of every live string. *)
StrOk(s, alloc) ==
    /\ \A i \in DOMAIN s.t : IsScalar(s.t[i])
    /\ ~s.heap => ~TooLong(s.t)
    /\ ~alloc => ~s.heap

(* Comparisons, as every comparison trait must answer them. *)
Cmps(a, b) ==
    LET c == LexCmp(a, b) IN
    [eq |-> c = 0, ne |-> c # 0, lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0, cmp |-> c]
=============================================================================
