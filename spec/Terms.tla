------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* The collection terms the design models quantify over: every leaf with   *)
(* few symbols, and the combinators applied to them.  Leaves that may be   *)
(* combined use different code points (base), as a user's would.           *)
(***************************************************************************)
EXTENDS Collections

Digits(base, len) == [i \in 1..len |-> base + i - 1]
Sets(base, lens) == {Set(Digits(base, k), z) : k \in lens, z \in BOOLEAN}
Ranges(base, lens, fbs) ==
    {[c |-> "range", base |-> base, len |-> k, zero |-> z, zb |-> b, fixed |-> FALSE, fb |-> None] :
        k \in lens, z \in BOOLEAN, b \in BOOLEAN}
    \cup {[c |-> "range", base |-> base, len |-> k, zero |-> z, zb |-> b, fixed |-> TRUE, fb |-> f] :
        k \in lens, z \in BOOLEAN, b \in BOOLEAN, f \in fbs}
One(x) == [c |-> "one", a |-> x]
Chain(x, y) == [c |-> "chain", a |-> x, b |-> y]
FirstOf(x, k) == [c |-> "restrict", a |-> x, k |-> k]
UnaryOn(xs, ks) == {One(x) : x \in xs} \cup {FirstOf(x, k) : x \in xs, k \in ks}
ChainsOf(xs, ys) == {Chain(x, y) : x \in xs, y \in ys}

(* The fallbacks that the driver offers its user collections.              *)
FixA == [c |-> "range", base |-> \h24B6, len |-> 20, zero |-> FALSE, zb |-> FALSE, fixed |-> TRUE, fb |-> Set(Digits(48, 10), TRUE)]
FixZ == [c |-> "range", base |-> \h24D0, len |-> 12, zero |-> FALSE, zb |-> TRUE, fixed |-> TRUE, fb |-> FixA]
FixN == [c |-> "range", base |-> \h2080, len |-> 5, zero |-> TRUE, zb |-> TRUE, fixed |-> TRUE, fb |-> None]
Sing == [c |-> "range", base |-> \h2609, len |-> 1, zero |-> FALSE, zb |-> TRUE, fixed |-> TRUE, fb |-> FixN]
Tally == [c |-> "range", base |-> 124, len |-> 1, zero |-> FALSE, zb |-> FALSE, fixed |-> FALSE, fb |-> None]
Hex == Set(Digits(48, 10) \o Digits(97, 6), TRUE)
Latin == Set(Digits(65, 26), FALSE)
Fallbacks == {None, Hex, Latin, FixA, FixZ, FixN, Sing, Tally}
LeavesA == Sets(\h3B1, 0..3) \cup Ranges(\h3B1, 0..3, Fallbacks)
LeavesB == Sets(\h4E00, 0..2) \cup Ranges(\h4E00, 0..2, {None, FixN})

(* The collection that lists the same digits and is none of a combination. *)
Plain(x) ==
    IF CFixed(x) THEN [c |-> "fixedset", syms |-> CDigits(x), zero |-> CHasZero(x), zb |-> CZeroBased(x), fb |-> CFallback(x)]
    ELSE IF OneBased(x) THEN One(Set(CDigits(x), FALSE))
    ELSE Set(CDigits(x), CHasZero(x))
=============================================================================
