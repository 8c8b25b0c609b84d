CONSTANTS P = 2
Calls = 1
Variant = "mapearly"
SPECIFICATION Spec
INVARIANTS ResultsStay
CHECK_DEADLOCK FALSE
