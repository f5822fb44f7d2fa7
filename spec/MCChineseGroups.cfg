SPECIFICATION Spec
CONSTANTS
    Pieces <- FewGroups
    MaxDigits = 28
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens
CHECK_DEADLOCK FALSE
