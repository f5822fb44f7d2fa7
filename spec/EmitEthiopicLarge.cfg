SPECIFICATION Grown
CONSTANTS
    InlineCapacity <- SmallCap
    GroupSet = {0, 1, 2, 10, 11, 50, 99}
    Groups = 6
    Allocs = {TRUE}
INVARIANT Printed
CHECK_DEADLOCK FALSE
