SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    Slots = 1
    HasAlloc = TRUE
    Chars <- FewChars
    Strings <- FewStrings
    MaxHeap = 6
VIEW View
CONSTRAINT Bounded
INVARIANTS RepOk TextsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
