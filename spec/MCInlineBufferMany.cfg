SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- LargeCap
    Slots = 1
    HasAlloc = FALSE
    Chars <- ManyChars
    Strings <- ManyStrings
    MaxHeap = 9
VIEW View
CONSTRAINT Bounded
INVARIANTS RepOk TextsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
