SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- TwoCap
    Slots = 2
    HasAlloc = FALSE
    Chars <- TwoChars
    Strings <- TwoStrings
    MaxHeap = 4
VIEW View
CONSTRAINT Bounded
INVARIANTS RepOk TextsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
