SPECIFICATION Spec
CONSTANTS
    InlineCapacity <- SmallCap
    Slots = 1
    HasAlloc = FALSE
    Chars <- FewChars
    Strings <- FewStrings
    MaxHeap = 9
VIEW View
CONSTRAINT Bounded
INVARIANTS RepOk TextsOk
PROPERTY Refines
CHECK_DEADLOCK FALSE
