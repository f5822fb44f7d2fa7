SPECIFICATION Spec
CONSTANTS
    Pieces <- FewGroups
    MaxDigits = 40
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
