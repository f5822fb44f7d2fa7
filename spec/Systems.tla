------------------------------ MODULE Systems -------------------------------
(***************************************************************************)
(* Every nominal system of the crate as one function: Expected(sys, n) is  *)
(* the answer to the request "format n with sys".                          *)
(*                                                                         *)
(* A system is a record whose field k is                                   *)
(*   "coll"     digit collection, term c (see Collections; leaves may be   *)
(*              [c |-> "builtin", name |-> ..])                            *)
(*   "additive" symbols set            (or a built-in: name)               *)
(*   "enum"     symbols syms, zero     (or a built-in: name)               *)
(*   "chinese"  trad, formal, and the options opts in the order applied    *)
(*   "hebrew", "ethiopic"                                                  *)
(*   "own"      a user system that writes its own infallible form:         *)
(*              numbers below bound are spelled pre ++ decimal, all others *)
(*              fail as err says; infallible formatting puts inf first     *)
(***************************************************************************)
EXTENDS Collections, Additive, Hebrew, Ethiopic, Enumerated, Chinese, Tables

Builtin(name) ==
    IF name \in DecimalNames THEN Set(DecimalTable(name), TRUE)
    ELSE IF name \in AlphaNames THEN Set(AlphaTable(name), FALSE)
    ELSE [c |-> "fixedset", syms |-> FixedTable(name), zero |-> FALSE, zb |-> FALSE,
          fb |-> Set(DecimalTable("CjkDecimal"), TRUE)]

(* Replace built-in leaves by their definitions. *)
RECURSIVE ResolveColl(_)
ResolveColl(x) ==
    CASE x.c = "builtin" -> Builtin(x.name)
      [] x.c \in {"none", "set"} -> x
      [] x.c \in {"range", "fixedset"} -> [x EXCEPT !.fb = ResolveColl(@)]
      [] x.c \in {"one", "restrict"} -> [x EXCEPT !.a = ResolveColl(@)]
      [] x.c = "chain" -> [x EXCEPT !.a = ResolveColl(@), !.b = ResolveColl(@)]

Resolve(s) ==
    CASE s.k = "coll" -> [s EXCEPT !.c = ResolveColl(@)]
      [] s.k = "additive" -> IF "name" \in DOMAIN s THEN [k |-> "additive", set |-> AdditiveTable(s.name)] ELSE s
      [] s.k = "enum" -> IF "name" \in DOMAIN s
                         THEN [k |-> "enum", syms |-> EnumeratedTable(s.name), zero |-> EnumeratedZero(s.name)] ELSE s
      [] s.k = "chinese" -> [k |-> "chinese", st |-> ChineseStyle(s.trad, s.formal, s.opts)]
      [] OTHER -> s

-----------------------------------------------------------------------------
DecimalText(n) == IF IsZero(n) THEN <<48>> ELSE LET d == DecDigits(n) IN [i \in 1..Len(d) |-> 48 + d[i]]

Expected(s, n) ==
    CASE s.k = "coll" -> CollOutcome(s.c, n)
      [] s.k = "additive" -> AdditiveOutcome(s.set, n)
      [] s.k = "enum" -> EnumOutcome(s.syms, s.zero, n)
      [] s.k = "chinese" -> ChineseOutcome(s.st, n)
      [] s.k = "hebrew" -> HebrewOutcome(n)
      [] s.k = "ethiopic" -> EthiopicOutcome(n)
      [] s.k = "own" -> IF Cmp(n, s.bound) < 0 THEN Ok(s.pre \o DecimalText(n))
                        ELSE IF s.err = "nozero" THEN NoZero
                        ELSE IF s.err = "oom" THEN Oom(n) ELSE Oob(n)

(* The answers allowed from a build with or without heap allocation. *)
Allowed(s, n, alloc, o) ==
    LET e == Expected(s, n) IN
    IF alloc THEN o = e
    ELSE \/ o = WithoutAlloc(e, n)
         \/ s.k = "additive" /\ e.r = "oob" /\ AttemptTooLong(s.set, n) /\ o = Oom(n)

(* What infallible formatting makes of a fallible answer. *)
Infallible(o, n) ==
    IF o.r = "ok" THEN o.t ELSE IF o.r = "nozero" THEN <<48>> ELSE DecimalText(n)

-----------------------------------------------------------------------------
(* The code points a system writes with. *)
RECURSIVE CollAlphabet(_)
CollAlphabet(x) ==
    ToSet(CDigits(x)) \cup (IF CFixed(x) /\ CFallback(x).c # "none" THEN CollAlphabet(CFallback(x)) ELSE {})
Alphabet(s) ==
    CASE s.k = "coll" -> CollAlphabet(s.c)
      [] s.k = "additive" -> UNION {ToSet(s.set[i].s) : i \in DOMAIN s.set}
      [] s.k = "enum" -> UNION {ToSet(s.syms[i]) : i \in DOMAIN s.syms}
      [] s.k = "chinese" -> {ChZero} \cup ToSet(ChDigits(s.st)) \cup ToSet(ChUnits(s.st)) \cup ToSet(ChLarge(s.st))
      [] s.k = "hebrew" -> {Tav, Geresh, Gershayim} \cup ToSet(HebrewHundreds) \cup ToSet(HebrewTens) \cup ToSet(HebrewOnes)
      [] s.k = "ethiopic" -> \h1369..\h137C
      [] s.k = "own" -> ToSet(s.pre) \cup 48..57
=============================================================================
