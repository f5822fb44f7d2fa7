SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    GroupSet = {0, 1, 10, 11, 20, 92}
    Groups = 5
    Allocs = {TRUE, FALSE}
INVARIANTS Right ReadsBack
CHECK_DEADLOCK FALSE
