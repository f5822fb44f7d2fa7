SPECIFICATION Spec
CONSTANTS
    Pieces <- SingleDigits
    MaxDigits = 10
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens
CHECK_DEADLOCK FALSE
