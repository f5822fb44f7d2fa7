------------------------------- MODULE MCUtf8 -------------------------------
EXTENDS Utf8
Edges == {0, 65, 122, 127, 128, 233, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
ManyWidths == {-1, 0, 1, 2, 3, 4, 6}
=============================================================================
