CONSTANTS N = 3
D = 2
Variant = "noleave"
PlanN = 3
SPECIFICATION Spec
INVARIANTS RightAnswer Bounded

CHECK_DEADLOCK FALSE
