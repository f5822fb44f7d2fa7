SPECIFICATION Spec
CONSTANTS
    TermSet = {}
    Maxima = {}
    Allocs = {}
CHECK_DEADLOCK FALSE
