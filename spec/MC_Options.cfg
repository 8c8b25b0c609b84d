CONSTANTS MaxLen = 3
PlanLen = 2
SPECIFICATION Spec
INVARIANTS LastWins AnyOrder Own Refused
CHECK_DEADLOCK FALSE
