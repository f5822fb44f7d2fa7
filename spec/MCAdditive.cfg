SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    MaxValue = 5
    MaxSymbols = 4
    Maxima = {1, 3, 12}
    Allocs = {TRUE, FALSE}
INVARIANTS Accepts InType AddsUp Greedily NeverZero Right ReadsBack
PROPERTY Stops
CHECK_DEADLOCK FALSE
