CONSTANTS N = 3
D = 2
Variant = "code"
PlanN = 3
SPECIFICATION Spec
INVARIANTS RightAnswer Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
