SPECIFICATION Spec
CONSTANTS
    Pieces <- SingleDigits
    MaxDigits = 10
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
