SPECIFICATION Spec
CONSTANTS
    Slots = 2
    HasAlloc = TRUE
    Chars <- TwoChars
    Texts <- TwoTexts
    Tight = 1
    Limit = 8
VIEW View
CONSTRAINT Short
INVARIANT Fine
CHECK_DEADLOCK FALSE
