CONSTANTS MaxLen = 3
PlanLen = 3
SPECIFICATION Spec
INVARIANTS SameReading
CHECK_DEADLOCK FALSE
