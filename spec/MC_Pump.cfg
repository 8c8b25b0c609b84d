CONSTANTS MaxLen = 4
MaxTail = 2
MaxN = 5
SPECIFICATION Spec
INVARIANTS Pumps Always
CHECK_DEADLOCK FALSE
