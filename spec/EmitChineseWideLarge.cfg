SPECIFICATION Spec
CONSTANTS
    Pieces <- TwoDigits
    MaxDigits = 16
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
