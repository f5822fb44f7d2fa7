SPECIFICATION Spec
CONSTANTS
    TermSet <- Terms
    Until = 399
INVARIANTS Agrees
PROPERTIES Later Rolls
CHECK_DEADLOCK FALSE
