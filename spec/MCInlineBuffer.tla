--------------------------- MODULE MCInlineBuffer ---------------------------
EXTENDS InlineBuffer
SmallCap == 5
FewChars == {97, 233, 23383}
FewStrings == {<<>>, <<97, 98>>, <<233, 97>>, <<98, 98, 98, 98, 98, 98>>}
LargeCap == 6
ManyChars == {97, 90, 233, 23383, 128512}
ManyStrings == {<<>>, <<97, 98>>, <<233, 97>>, <<23383>>, <<97, 128512>>, <<98, 98, 98, 98, 98, 98>>, <<98, 98, 98, 98, 98, 98, 233>>}
TwoCap == 3
TwoChars == {97, 233}
TwoStrings == {<<>>, <<97, 98>>, <<98, 98, 98, 98>>}
=============================================================================
