----------------------------- MODULE MCChinese ------------------------------
EXTENDS ChineseMachine
AllStyles == {[trad |-> FALSE, fin |-> FALSE, formal |-> f, scale |-> s] : f \in BOOLEAN, s \in {"myriad", "mid", "long", "short"}}
SingleDigits == {<<1, 0>>, <<1, 1>>, <<1, 2>>}
TwoDigits == {<<1, 0>>, <<1, 1>>}
WholeGroups == {<<4, v>> : v \in {0, 1, 10, 12, 1000, 2003}}
FewGroups == {<<4, v>> : v \in {0, 1, 1020}}
=============================================================================
