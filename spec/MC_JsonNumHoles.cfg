CONSTANT WithHoles = TRUE
CONSTANTS Pieces = {}
Start <- NoStart
Others <- HoleNumbers
Texts <- HoleNumbers
MaxLen = 0
PlanLen = 0
Kind = "numbers"
SPECIFICATION SpecOthers
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
