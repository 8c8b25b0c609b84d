CONSTANTS MaxLen = 5
MaxPre = 1
MaxRoom = 10
PlanLen = 16
PlanRoom = 30
SPECIFICATION Spec
INVARIANTS Same RoundTrip Length Kept InPlace
CHECK_DEADLOCK FALSE
