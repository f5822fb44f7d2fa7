SPECIFICATION Spec
CONSTANTS
    Slots = 1
    HasAlloc = FALSE
    Chars <- OneChars
    Texts <- OneTexts
    Tight = 4
    Limit = 8
VIEW View
CONSTRAINT Short
INVARIANT Fine
CHECK_DEADLOCK FALSE
