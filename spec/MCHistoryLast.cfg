SPECIFICATION Spec
CONSTANTS
    Threads = 1
    Numbers = {0, 1, 2, 6}
    Base = 2
    Scratch = "own"
    Memory = "last"
    Narrow = 4
    Rounds = 4
INVARIANTS OneAnswer 

CHECK_DEADLOCK FALSE
