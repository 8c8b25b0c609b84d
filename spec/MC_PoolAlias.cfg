CONSTANTS P = 2
Calls = 1
Variant = "alias"
SPECIFICATION Spec
INVARIANTS ResultsStay
CHECK_DEADLOCK FALSE
