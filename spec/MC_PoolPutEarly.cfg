CONSTANTS P = 2
Calls = 1
Variant = "putearly"
SPECIFICATION Spec
INVARIANTS ResultsStay
CHECK_DEADLOCK FALSE
