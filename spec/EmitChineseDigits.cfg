SPECIFICATION Spec
CONSTANTS
    Pieces <- SingleDigits
    MaxDigits = 7
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
