SPECIFICATION Grown
CONSTANTS
    InlineCapacity <- SmallCap
    GroupSet = {0, 1, 10, 11, 20, 92}
    Groups = 5
    Allocs = {TRUE}
INVARIANT Printed
CHECK_DEADLOCK FALSE
