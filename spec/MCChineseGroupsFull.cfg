SPECIFICATION Spec
CONSTANTS
    Pieces <- FewGroups
    MaxDigits = 40
    Styles <- AllStyles
INVARIANTS Right ReadsBack ZerosOnText InformalTens
CHECK_DEADLOCK FALSE
