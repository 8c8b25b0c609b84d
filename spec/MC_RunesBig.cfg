CONSTANT Wide = 2
CONSTANTS Alphabet = {}
Others <- Runes
Strings <- Runes
MaxLen = 0
PlanLen = 0
SPECIFICATION SpecOthers
INVARIANTS Faithful Scanner Stable
CHECK_DEADLOCK FALSE
