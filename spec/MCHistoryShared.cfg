SPECIFICATION Spec
CONSTANTS
    Threads = 2
    Numbers = {0, 1, 2, 6}
    Base = 2
    Scratch = "shared"
    Memory = "none"
    Narrow = 4
    Rounds = 2
INVARIANTS OneAnswer 

CHECK_DEADLOCK FALSE
