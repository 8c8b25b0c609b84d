CONSTANTS P = 3
N = 3
Depth = 2
Variant = "code"
SPECIFICATION SimSpec
INVARIANTS NeverHalfDone RightResults OneBuilder FinalIsDone TopIsBuilt Written
CHECK_DEADLOCK FALSE
