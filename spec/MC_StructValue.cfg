CONSTANTS MaxLen = 4
PlanLen = 4
TakeBack = "value"
SPECIFICATION Spec
INVARIANTS Right Fails
PROPERTY Decided
CHECK_DEADLOCK FALSE
