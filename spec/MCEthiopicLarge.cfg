SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    GroupSet = {0, 1, 2, 10, 11, 50, 99}
    Groups = 6
    Allocs = {TRUE, FALSE}
INVARIANTS Right ReadsBack
CHECK_DEADLOCK FALSE
