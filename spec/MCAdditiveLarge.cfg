SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    MaxValue = 9
    MaxSymbols = 5
    Maxima = {1, 3, 6, 20}
    Allocs = {TRUE, FALSE}
INVARIANTS Accepts InType AddsUp Greedily NeverZero Right ReadsBack

CHECK_DEADLOCK FALSE
