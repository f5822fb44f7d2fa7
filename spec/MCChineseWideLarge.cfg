SPECIFICATION Spec
CONSTANTS
    Pieces <- TwoDigits
    MaxDigits = 16
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens
CHECK_DEADLOCK FALSE
