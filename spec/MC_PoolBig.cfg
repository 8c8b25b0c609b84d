CONSTANTS P = 2
Calls = 2
Variant = "code"
SPECIFICATION Spec
INVARIANTS ResultsStay OneHand
CHECK_DEADLOCK FALSE
