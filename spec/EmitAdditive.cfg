SPECIFICATION Offered
CONSTANTS
    MaxValue = 5
    MaxSymbols = 4
    Maxima = {1}
    Allocs = {TRUE}
INVARIANT Printed
CHECK_DEADLOCK FALSE
