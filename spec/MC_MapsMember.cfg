CONSTANTS MaxSize = 3
PlanSize = 3
By = "member"
SPECIFICATION Spec
INVARIANTS Right Reads Strict
CHECK_DEADLOCK FALSE
