SPECIFICATION Spec
CONSTANTS
    TermSet <- Counting
    Until = 3999

INVARIANTS Agrees
PROPERTIES Later Rolls
CHECK_DEADLOCK FALSE
