SPECIFICATION Spec
CONSTANTS
    Slots = 1
    HasAlloc = TRUE
    Chars <- OneChars
    Texts <- OneTexts
    Tight = 4
    Limit = 8
VIEW View
CONSTRAINT Short
INVARIANT Fine
CHECK_DEADLOCK FALSE
