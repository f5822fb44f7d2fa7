SPECIFICATION Spec
CONSTANTS
    Threads = 2
    Numbers = {0, 1, 2, 6}
    Base = 2
    Scratch = "own"
    Memory = "none"
    Narrow = 4
    Rounds = 2
INVARIANTS OneAnswer Right
PROPERTIES Answers Settled
CHECK_DEADLOCK FALSE
