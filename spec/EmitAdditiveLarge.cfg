SPECIFICATION Offered
CONSTANTS
    MaxValue = 9
    MaxSymbols = 5
    Maxima = {1}
    Allocs = {TRUE}
INVARIANT Printed
CHECK_DEADLOCK FALSE
