SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    TermSet <- LargeTerms
    Maxima <- LargeMaxima
    Allocs = {TRUE, FALSE}
INVARIANTS NoPanic InType MakesUp Right ReadsBack NoLeadingZero Listing OneLater Succeeds FixedRange
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
