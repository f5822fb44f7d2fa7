SPECIFICATION Spec
CONSTANTS
    Pieces <- TwoDigits
    MaxDigits = 11
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
