----------------------------- MODULE InlineProof ----------------------------
(***************************************************************************)
(* The inline buffer at its true capacity, with texts of any length: where *)
(* each operation copies from and to, as byte positions.  Proved: a string *)
(* that stays inline has at most Cap bytes, everything moved or written    *)
(* lies inside the buffer, what is moved is exactly the text there was,    *)
(* and moved and written parts together are exactly the new text, side by  *)
(* side (C01, C02).                                                        *)
(***************************************************************************)
EXTENDS Integers, TLAPS

Cap == 62
VARIABLES len, rev,                    \* an inline string: bytes used, filled from the end?
          from, to, dest,              \* bytes from .. to - 1 move to dest ..
          put, count,                  \* count new bytes are written at put ..
          was                          \* the length before
vars == <<len, rev, from, to, dest, put, count, was>>

Offset(l, r) == IF r THEN Cap - l ELSE 0

Init == len = 0 /\ rev \in BOOLEAN /\ from = 0 /\ to = 0 /\ dest = 0 /\ put = Offset(0, rev) /\ count = 0 /\ was = 0
(* Append k bytes.                                                         *)
Append == \E k \in Nat :
    /\ len + k <= Cap
    /\ len' = len + k /\ rev' = rev /\ count' = k /\ was' = len
    /\ IF rev THEN from' = Cap - len /\ to' = Cap /\ dest' = Cap - (len + k) /\ put' = Cap - k
              ELSE from' = 0 /\ to' = len /\ dest' = 0 /\ put' = len
(* Put a character of w bytes in front.                                    *)
Front == \E w \in 1..4 :
    /\ len + w <= Cap
    /\ len' = len + w /\ rev' = rev /\ count' = w /\ was' = len
    /\ IF rev THEN from' = Cap - len /\ to' = Cap /\ dest' = Cap - len /\ put' = Cap - (len + w)
              ELSE from' = 0 /\ to' = len /\ dest' = w /\ put' = 0
Next == Append \/ Front
Spec == Init /\ [][Next]_vars

Inv ==
    /\ len \in 0..Cap /\ rev \in BOOLEAN /\ was \in 0..Cap /\ count \in 0..Cap
    /\ from \in 0..Cap /\ to \in 0..Cap /\ dest \in 0..Cap /\ put \in 0..Cap
    /\ from <= to /\ to - from = was                           \* all of the text is moved
    /\ dest + was <= Cap /\ put + count <= Cap                 \* inside the buffer
    /\ len = was + count
    \* the moved and the new part lie side by side and begin at the offset
    /\ \/ dest = Offset(len, rev) /\ put = dest + was          \* appended
       \/ put = Offset(len, rev) /\ dest = put + count         \* put in front
       \/ was = 0 /\ put = Offset(len, rev)
    \* what is moved is where the text was
    /\ was > 0 => from = Offset(was, rev)

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, Offset, Cap
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Append
    <3>1. PICK k \in Nat : /\ len + k <= Cap
                           /\ len' = len + k /\ rev' = rev /\ count' = k /\ was' = len
                           /\ IF rev THEN from' = Cap - len /\ to' = Cap /\ dest' = Cap - (len + k) /\ put' = Cap - k
                                     ELSE from' = 0 /\ to' = len /\ dest' = 0 /\ put' = len
      BY <2>1 DEF Append
    <3>2. len \in Nat /\ len <= 62 /\ rev \in BOOLEAN
      BY DEF Inv, Cap
    <3>3. CASE rev = TRUE
      <4>1. rev' = TRUE /\ len' = len + k /\ count' = k /\ was' = len
            /\ from' = 62 - len /\ to' = 62 /\ dest' = 62 - (len + k) /\ put' = 62 - k /\ len + k <= 62 /\ k \in Nat
        BY <3>1, <3>2, <3>3 DEF Cap
      <4>2. Offset(len', rev') = 62 - (len + k) /\ Offset(was', rev') = 62 - len
        BY <4>1 DEF Offset, Cap
      <4>3. /\ len' \in 0..Cap /\ rev' \in BOOLEAN /\ was' \in 0..Cap /\ count' \in 0..Cap
            /\ from' \in 0..Cap /\ to' \in 0..Cap /\ dest' \in 0..Cap /\ put' \in 0..Cap
        BY <3>2, <4>1 DEF Cap
      <4>4. /\ from' <= to' /\ to' - from' = was' /\ dest' + was' <= Cap /\ put' + count' <= Cap
            /\ len' = was' + count' /\ (was' > 0 => from' = Offset(was', rev'))
        BY <3>2, <4>1, <4>2 DEF Cap
      <4>5. \/ dest' = Offset(len', rev') /\ put' = dest' + was'
            \/ put' = Offset(len', rev') /\ dest' = put' + count'
        BY <3>2, <4>1, <4>2
      <4> QED
        BY <4>3, <4>4, <4>5 DEF Inv
    <3>4. CASE rev = FALSE
      BY <3>1, <3>2, <3>4 DEF Inv, Offset, Cap
    <3> QED
      BY <3>2, <3>3, <3>4
  <2>2. CASE Front
    <3>1. PICK w \in 1..4 : /\ len + w <= Cap
                            /\ len' = len + w /\ rev' = rev /\ count' = w /\ was' = len
                            /\ IF rev THEN from' = Cap - len /\ to' = Cap /\ dest' = Cap - len /\ put' = Cap - (len + w)
                                      ELSE from' = 0 /\ to' = len /\ dest' = w /\ put' = 0
      BY <2>2 DEF Front
    <3>2. len \in Nat /\ len <= 62 /\ rev \in BOOLEAN
      BY DEF Inv, Cap
    <3>3. CASE rev = TRUE
      <4>1. rev' = TRUE /\ len' = len + w /\ count' = w /\ was' = len
            /\ from' = 62 - len /\ to' = 62 /\ dest' = 62 - len /\ put' = 62 - (len + w) /\ len + w <= 62 /\ w \in Nat
        BY <3>1, <3>2, <3>3 DEF Cap
      <4>2. Offset(len', rev') = 62 - (len + w) /\ Offset(was', rev') = 62 - len
        BY <4>1 DEF Offset, Cap
      <4>3. /\ len' \in 0..Cap /\ rev' \in BOOLEAN /\ was' \in 0..Cap /\ count' \in 0..Cap
            /\ from' \in 0..Cap /\ to' \in 0..Cap /\ dest' \in 0..Cap /\ put' \in 0..Cap
        BY <3>2, <4>1 DEF Cap
      <4>4. /\ from' <= to' /\ to' - from' = was' /\ dest' + was' <= Cap /\ put' + count' <= Cap
            /\ len' = was' + count' /\ (was' > 0 => from' = Offset(was', rev'))
        BY <3>2, <4>1, <4>2 DEF Cap
      <4>5. \/ dest' = Offset(len', rev') /\ put' = dest' + was'
            \/ put' = Offset(len', rev') /\ dest' = put' + count'
        BY <3>2, <4>1, <4>2
      <4> QED
        BY <4>3, <4>4, <4>5 DEF Inv
    <3>4. CASE rev = FALSE
      BY <3>1, <3>2, <3>4 DEF Inv, Offset, Cap
    <3> QED
      BY <3>2, <3>3, <3>4
  <2>3. CASE UNCHANGED vars
    BY <2>3 DEF Inv, vars, Offset, Cap
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec
=============================================================================
