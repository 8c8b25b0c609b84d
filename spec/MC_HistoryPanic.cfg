CONSTANTS MaxLen = 3
PlanLen = 1
Calls = 24
Design = "panic"
SPECIFICATION Spec
INVARIANTS Independent
CHECK_DEADLOCK FALSE
