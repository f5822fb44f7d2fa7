SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    Requests <- Large
    Allocs = {TRUE, FALSE}
INVARIANTS InType Right Reading
CHECK_DEADLOCK FALSE
