CONSTANTS P = 2
Calls = 1
Variant = "code"
SPECIFICATION Spec
INVARIANTS ResultsStay OneHand
CHECK_DEADLOCK FALSE
