SPECIFICATION Spec
CONSTANTS
    Pieces <- WholeGroups
    MaxDigits = 24
    Styles <- AllStyles
INVARIANT Printed
CHECK_DEADLOCK FALSE
