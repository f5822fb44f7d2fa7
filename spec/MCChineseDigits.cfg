SPECIFICATION Spec
CONSTANTS
    Pieces <- SingleDigits
    MaxDigits = 7
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens SameInVariants
CHECK_DEADLOCK FALSE
