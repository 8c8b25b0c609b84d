CONSTANTS MaxLen = 7
MaxPre = 1
MaxRoom = 14
PlanLen = 48
PlanRoom = 80
SPECIFICATION Spec
INVARIANTS Same RoundTrip Length Kept InPlace
CHECK_DEADLOCK FALSE
