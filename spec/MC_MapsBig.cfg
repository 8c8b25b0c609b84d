CONSTANTS MaxSize = 4
PlanSize = 4
By = "text"
SPECIFICATION Spec
INVARIANTS Right Reads Strict
CHECK_DEADLOCK FALSE
