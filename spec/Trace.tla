------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a recorded run of the crate.  The first line of the trace is a   *)
(* header [alloc, storage, sys]; every further line is one event, with the   *)
(* arguments and the answers observed at the public API.  Each event must  *)
(* be a step the specification allows from the current state:              *)
(*   slots  the nominal strings (string events)                            *)
(*   last   the previous numeral of an odometer run                        *)
(*   hist   who waits for what and what was told so far                    *)
(***************************************************************************)
EXTENDS Systems, NominalStr, History, Json, TLC, IOUtils, FiniteSets

Tr == ndJsonDeserialize(IOEnv.TRACE)
Hdr == Tr[1]
Sys == [i \in 1..Len(Hdr.sys) |-> Resolve(Hdr.sys[i])]
Alphabets == [i \in 1..Len(Hdr.sys) |-> Alphabet(Sys[i])]
NoLast == [s |-> 0, t |-> <<>>]

VARIABLES l, slots, last, hist
vars == <<l, slots, last, hist>>

Init == l = 2 /\ slots = <<>> /\ last = NoLast /\ hist = NoHistory(0)

Same == UNCHANGED <<slots, last, hist>>
-----------------------------------------------------------------------------
(* f: n was formatted with system s from every type that can hold it;      *)
(*    o are the different answers.                                         *)
Format(e) == \A i \in 1..Len(e.o) : Allowed(Sys[e.s], e.n, Hdr.alloc, e.o[i])

(* u: the same, judged only for agreement between the types.               *)
(* Errors carry the number that was asked for.                             *)
CarriesNumber(o, n) ==
    /\ o.r \in {"ok", "nozero", "oob", "oom"}
    /\ o.r \in {"oob", "oom"} => o.p = n
Uniform(e) == Len(e.o) = 1 /\ CarriesNumber(e.o[1], e.n)

(* i: fallible answer a, and the infallible answers x derived from it.     *)
(*    x: format_nominal, to_nominal, unwrap_or_decimal, into_decimal       *)
(*    y: try_to_nominal and with_nominal's answers                         *)
InfallibleOk(e) ==
    /\ CarriesNumber(e.a, e.n)
    /\ e.a.r = "nozero" => IsZero(e.n)
    /\ \A i \in 1..Len(e.x) : e.x[i] = Ok(Infallible(e.a, e.n))
    /\ \A i \in 1..Len(e.y) : e.y[i] = e.a

(* m: an error made by hand, and its decimal form.                         *)
MadeError(e) == e.x = Ok(Infallible(e.a, e.n)) /\ e.y = Ok(Infallible(e.a, e.n))

(* n: what a number says about itself.  (Numbers that do not fit a usize   *)
(*    are not asked for theirs.)                                           *)
Number(e) == e.zero = IsZero(e.n) /\ e.usize = e.n

(* cap: the inline capacity the crate announces.                           *)
Capacity(e) == e.n = InlineCapacity

(* w: the answers of a system itself (a fallible, b infallible) and those  *)
(*    of its wrapped forms; g: those when asked through the number.        *)
Wrapped(e) ==
    /\ \A i \in 1..Len(e.x) : e.x[i] = e.a
    /\ \A i \in 1..Len(e.y) : e.y[i] = e.b

(* h: the answers with (a, infallible ai) and without (b, bi) allocation.  *)
(*    Where the text would be too long to spell out (a = "long", not asked *)
(*    for), the specification stands in for the build with allocation.     *)
WithAndWithout(e) ==
    LET a == IF e.a.r = "long" THEN Expected(Sys[e.s], e.n) ELSE e.a IN
    /\ \/ e.b = WithoutAlloc(a, e.n)
       \/ Sys[e.s].k = "additive" /\ a = Oob(e.n) /\ AttemptTooLong(Sys[e.s].set, e.n) /\ e.b = Oom(e.n)
    /\ e.bi = Ok(Infallible(e.b, e.n))

(* t: the answer is well formed, whatever it is.                           *)
WellFormed(e) ==
    /\ \A i \in 1..Len(e.o) :
          /\ e.o[i].r \in (IF Hdr.alloc THEN {"ok", "nozero", "oob"} ELSE {"ok", "nozero", "oob", "oom"})
          /\ e.o[i].r = "ok" => e.o[i].t # <<>> /\ ToSet(e.o[i].t) \subseteq Alphabets[e.s]
    /\ \A i \in 1..Len(e.x) : e.x[i].r = "ok" /\ e.x[i].t # <<>>

(* c: what a collection says about itself.                                 *)
Collection(e) ==
    LET c == Sys[e.s].c IN
    /\ e.len = CLen(c) /\ e.empty = (CLen(c) = 0)
    /\ CLen(c) > 0 => e.zero = CHasZero(c)
    /\ e.digits = CDigits(c)

(* v: an additive set with these values was accepted or not.               *)
AdditiveNew(e) == e.r = (IF Descends(e.v) THEN "ok" ELSE "panic")

(* d: numerals of different numbers, all from system s.                    *)
Distinct(e) == Cardinality(ToSet(e.t)) = Len(e.t)

-----------------------------------------------------------------------------
(* o: the numeral of the next number (or, first = TRUE, of any number).    *)
Odometer(e) ==
    /\ e.o.r = "ok"
    /\ ToSet(e.o.t) \subseteq Alphabets[e.s]
    /\ ~e.first => last.s = e.s /\ e.o.t = Successor(Sys[e.s].c, last.t)
    /\ last' = [s |-> e.s, t |-> e.o.t]
    /\ UNCHANGED <<slots, hist>>

-----------------------------------------------------------------------------
(* z: one operation on the nominal strings, its reply, and what all        *)
(*    strings look like afterwards.                                        *)
Step(e) ==
    /\ Enabled(slots, e, Hdr.alloc)
    /\ Len(e.see) = Len(slots)
    /\ LET d == Do(slots, e, Hdr.alloc) IN
       /\ e.reply = d[2]
       /\ \A i \in DOMAIN slots :
             /\ e.see[i].live = d[1][i].live
             /\ e.see[i].t = d[1][i].t
             /\ Hdr.storage => e.see[i].heap = d[1][i].heap
       /\ \A i \in DOMAIN slots : StrOk(d[1][i], Hdr.alloc)
       /\ slots' = d[1]
    /\ UNCHANGED <<last, hist>>
Reset(e) == slots' = [i \in 1..e.k |-> NoStr] /\ UNCHANGED <<last, hist>>

(* hist: e.k threads are about to put requests; ask: thread k puts request *)
(*    q; told: it is answered.                                             *)
Begin(e) == hist' = NoHistory(e.k) /\ UNCHANGED <<slots, last>>
Ask(e) == MayAsk(hist, e.k, e.q) /\ hist' = Asks(hist, e.k, e.q) /\ UNCHANGED <<slots, last>>
Told(e) == MayTell(hist, e.k, e.q, e.o) /\ hist' = Tells(hist, e.k, e.q, e.o) /\ UNCHANGED <<slots, last>>
(* l: the different answers to one request put over and over, from one     *)
(*    thread or several.                                                   *)
OneAnswer(e) == Len(e.o) = 1

(* k: two texts compared in every way the crate offers.                    *)
Compare(e) == LET c == Cmps(e.a, e.b) IN
    /\ \A i \in 1..Len(e.x) : e.x[i] = c
    /\ \A i \in 1..Len(e.y) : e.y[i] = c.eq
    /\ \A i \in 1..Len(e.z) : e.z[i] = c.cmp
(* p: text a displayed with format parameters.                             *)
Displayed(e) == e.x = Display(e.a, e.fill, e.align, e.width, e.prec)
(* q: text a cloned and converted.                                         *)
Converted(e) == \A i \in 1..Len(e.x) : e.x[i] = e.a

-----------------------------------------------------------------------------
Stateless(e) ==
    CASE e.e = "f" -> Format(e)
      [] e.e = "u" -> Uniform(e)
      [] e.e = "i" -> InfallibleOk(e)
      [] e.e = "m" -> MadeError(e)
      [] e.e = "n" -> Number(e)
      [] e.e = "cap" -> Capacity(e)
      [] e.e \in {"w", "g"} -> Wrapped(e)
      [] e.e = "h" -> WithAndWithout(e)
      [] e.e = "t" -> WellFormed(e)
      [] e.e = "c" -> Collection(e)
      [] e.e = "l" -> OneAnswer(e)
      [] e.e = "v" -> AdditiveNew(e)
      [] e.e = "d" -> Distinct(e)
      [] e.e = "k" -> Compare(e)
      [] e.e = "p" -> Displayed(e)
      [] e.e = "q" -> Converted(e)
      [] OTHER -> FALSE

Allows(e) ==
    CASE e.e = "o" -> Odometer(e)
      [] e.e = "z" -> Step(e)
      [] e.e = "reset" -> Reset(e)
      [] e.e = "hist" -> Begin(e)
      [] e.e = "ask" -> Ask(e)
      [] e.e = "told" -> Told(e)
      [] OTHER -> Stateless(e) /\ Same

(* One line at a time; TLC stops at the first event that is not allowed.   *)
Next == l <= Len(Tr) /\ l' = l + 1 /\ Allows(Tr[l])
Spec == Init /\ [][Next]_vars

(* The whole trace was consumed; otherwise, say how far it got and what    *)
(* was expected of the event that was refused.                             *)
Explain(e) ==
    CASE e.e \in {"f", "u", "t", "h", "o", "i"} -> <<"expected", Expected(Sys[e.s], e.n)>>
      [] e.e = "k" -> <<"expected", Cmps(e.a, e.b)>>
      [] e.e = "told" -> <<"another answer than the first to this request">>
      [] e.e = "p" -> <<"expected", Display(e.a, e.fill, e.align, e.width, e.prec)>>
      [] e.e = "c" -> <<"expected", CLen(Sys[e.s].c), CHasZero(Sys[e.s].c), CDigits(Sys[e.s].c)>>
      [] OTHER -> <<"no explanation">>
Accepted ==
    LET reached == TLCGet("stats").diameter IN
    \/ reached = Len(Tr)
    \/ PrintT(<<"REJECTED", reached + 1>>) /\ PrintT(Explain(Tr[reached + 1])) /\ FALSE
=============================================================================
