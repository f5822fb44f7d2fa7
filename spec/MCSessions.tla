----------------------------- MODULE MCSessions -----------------------------
EXTENDS Sessions
A(k) == [i \in 1..k |-> 96 + (i % 26) + (IF i % 26 = 0 THEN 1 ELSE 0)]
OneChars == {97, 90, 233, 23383, 128512}
OneTexts == {<<>>, <<23383, 97>>, A(29), <<233>> \o A(26) \o <<128512>>, A(58), A(59) \o <<23383>>, A(60) \o <<233>>, A(63), A(30) \o <<23383>> \o A(32), A(193)}
TwoChars == {97, 128512}
TwoTexts == {<<>>, A(60), <<233>> \o A(58) \o <<233>>}
PairChars == {128512}
PairTexts == {A(58), <<233>> \o A(61)}
=============================================================================
