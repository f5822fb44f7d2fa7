SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- LargeCap
    Slots = 1
    HasAlloc = TRUE
    Chars <- FewChars
    Strings <- FewStrings
    MaxHeap = 8
VIEW View
CONSTRAINT Bounded
INVARIANTS RepOk TextsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
