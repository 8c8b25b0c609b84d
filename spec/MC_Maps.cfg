CONSTANTS MaxSize = 3
PlanSize = 3
By = "text"
SPECIFICATION Spec
INVARIANTS Right Reads Strict
CHECK_DEADLOCK FALSE
