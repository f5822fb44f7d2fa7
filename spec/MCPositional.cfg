SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    TermSet <- SmallTerms
    Maxima <- SmallMaxima
    Allocs = {TRUE, FALSE}
INVARIANTS NoPanic InType MakesUp Right ReadsBack NoLeadingZero Listing OneLater Succeeds FixedRange
PROPERTIES Shrinks Stops
CHECK_DEADLOCK FALSE
