SPECIFICATION Spec
CONSTANTS
    Chars <- Edges
    MaxLen = 3
    Fills = {42, 8364}
    Widths <- ManyWidths
INVARIANTS Lengths RoundTrip IsBytes SameOrder Joins Cases Antisymmetric Pads
CHECK_DEADLOCK FALSE
