SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    Requests <- Small
    Allocs = {TRUE, FALSE}
INVARIANTS InType Right Reading
CHECK_DEADLOCK FALSE
