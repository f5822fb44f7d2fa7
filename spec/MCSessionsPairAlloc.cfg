SPECIFICATION Spec
CONSTANTS
    Slots = 2
    HasAlloc = TRUE
    Chars <- PairChars
    Texts <- PairTexts
    Tight = 1
    Limit = 8
VIEW View
CONSTRAINT Short
INVARIANT Fine
CHECK_DEADLOCK FALSE
