CONSTANTS MaxLen = 6
MaxTail = 2
MaxN = 6
SPECIFICATION Spec
INVARIANTS Pumps Always
CHECK_DEADLOCK FALSE
