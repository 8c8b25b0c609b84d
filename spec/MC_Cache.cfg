CONSTANTS P = 2
N = 2
Depth = 2
Variant = "code"
SPECIFICATION Spec
INVARIANTS NeverHalfDone RightResults OneBuilder FinalIsDone TopIsBuilt
PROPERTIES Grows Ends
