CONSTANTS MaxLen = 4
PlanLen = 4
TakeBack = "all"
SPECIFICATION Spec
INVARIANTS Right Fails
PROPERTY Decided
CHECK_DEADLOCK FALSE
