CONSTANTS MaxLen = 3
PlanLen = 3
Calls = 24
Design = "good"
SPECIFICATION Spec
INVARIANTS Independent
CHECK_DEADLOCK FALSE
