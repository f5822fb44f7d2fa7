SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    Sizes = {0, 1, 2, 5, 9, 13}
    Maxima = {1, 3, 7, 15, 31}
    IndexMax = 15
    Allocs = {TRUE, FALSE}
INVARIANTS InType Right Reads
PROPERTY Stops
CHECK_DEADLOCK FALSE
