SPECIFICATION Spec
CONSTANTS
    Numbers <- SomeNumbers
    Depth = 4
    Layers = {"box", "rc", "arc"}
INVARIANTS AsInside Decimal AlwaysText Carries
PROPERTY Returns
CHECK_DEADLOCK FALSE
