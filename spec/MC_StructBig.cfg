CONSTANTS MaxLen = 5
PlanLen = 5
TakeBack = "all"
SPECIFICATION Spec
INVARIANTS Right Fails
PROPERTY Decided
CHECK_DEADLOCK FALSE
