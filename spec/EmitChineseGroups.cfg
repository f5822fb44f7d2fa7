SPECIFICATION Spec
CONSTANTS
    Pieces <- FewGroups
    MaxDigits = 28
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
