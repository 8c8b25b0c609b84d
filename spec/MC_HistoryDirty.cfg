CONSTANTS MaxLen = 3
PlanLen = 1
Calls = 24
Design = "dirty"
SPECIFICATION Spec
INVARIANTS Independent
CHECK_DEADLOCK FALSE
