------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* How a formatting request reaches a system: through the number or the    *)
(* system, fallible or infallible, and through any nesting of boxed and    *)
(* shared objects, each of which passes the call on to what it holds.  A   *)
(* system answers fallible requests; it answers infallible ones with text  *)
(* of its own, or else with the fallible answer's text or its decimal      *)
(* stand-in.                                                               *)
(*                                                                         *)
(* Shown: what comes back is what the innermost system gives (C20), and    *)
(* infallible formatting returns the system's text or the decimal form of  *)
(* the number asked for, nothing else (C15), which fits the inline buffer  *)
(* (C18).                                                                  *)
(***************************************************************************)
EXTENDS BigNat, Outcome, FiniteSets

CONSTANTS Numbers, Depth, Layers

Kinds == {"ok", "nozero", "oob", "oom"}
VARIABLES n, kind, own, nest,           \* the request; the system's answer; its own infallible form?; the layers
          entry,                        \* "to", "try_to", "format", "try_format"
          stack, pc, call, result
vars == <<n, kind, own, nest, entry, stack, pc, call, result>>

DecimalText(m) == IF IsZero(m) THEN <<48>> ELSE LET d == DecDigits(m) IN [i \in 1..Len(d) |-> 48 + d[i]]
Fallible == CASE kind = "ok" -> Ok(<<65>> \o DecimalText(n)) [] kind = "nozero" -> NoZero [] kind = "oob" -> Oob(n) [] kind = "oom" -> Oom(n)
OwnText == Ok(<<33>> \o DecimalText(n))
OrDecimal(o) == IF o.r = "ok" THEN o ELSE IF o.r = "nozero" THEN Ok(<<48>>) ELSE Ok(DecimalText(o.p))

Nests == UNION {[1..k -> Layers] : k \in 0..Depth}
Init ==
    /\ n \in Numbers /\ kind \in Kinds /\ (kind = "nozero" => IsZero(n)) /\ own \in BOOLEAN /\ nest \in Nests
    /\ entry \in {"to", "try_to", "format", "try_format"}
    /\ stack = <<>> /\ pc = "call" /\ call = entry /\ result = Ok(<<>>)

Keep == UNCHANGED <<n, kind, own, nest, entry>>
(* to_nominal and try_to_nominal ask the system.                           *)
FromNumber == /\ pc = "call" /\ call \in {"to", "try_to"}
              /\ call' = IF call = "to" THEN "format" ELSE "try_format"
              /\ Keep /\ UNCHANGED <<stack, pc, result>>
(* A layer calls what it holds.                                            *)
Through == /\ pc = "call" /\ call \in {"format", "try_format"} /\ Len(stack) < Len(nest)
           /\ stack' = Append(stack, nest[Len(stack) + 1])
           /\ Keep /\ UNCHANGED <<pc, call, result>>
(* The innermost system answers.                                           *)
Arrive == /\ pc = "call" /\ call \in {"format", "try_format"} /\ Len(stack) = Len(nest)
          /\ result' = IF call = "try_format" THEN Fallible ELSE IF own THEN OwnText ELSE OrDecimal(Fallible)
          /\ pc' = "return" /\ Keep /\ UNCHANGED <<stack, call>>
Return == /\ pc = "return" /\ stack # <<>>
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ Keep /\ UNCHANGED <<pc, call, result>>
Next == FromNumber \/ Through \/ Arrive \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == pc = "return" /\ stack = <<>>
AsInside == Over => result = (IF entry \in {"try_to", "try_format"} THEN Fallible ELSE IF own THEN OwnText ELSE OrDecimal(Fallible))
Decimal == Over /\ entry \in {"to", "format"} /\ ~own /\ kind # "ok" => result = Ok(DecimalText(IF kind = "nozero" THEN Zero ELSE n))
AlwaysText == Over /\ entry \in {"to", "format"} => result.r = "ok" /\ result.t # <<>> /\ Utf8Len(result.t) <= InlineCapacity
Carries == result.r \in {"oob", "oom"} => result.p = n
Returns == <>Over
=============================================================================
