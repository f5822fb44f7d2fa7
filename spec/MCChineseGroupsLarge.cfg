SPECIFICATION Spec
CONSTANTS
    Pieces <- WholeGroups
    MaxDigits = 24
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens
CHECK_DEADLOCK FALSE
