CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- TokenPieces
Start <- NoStart
MaxLen = 5
PlanLen = 5
Kind = "texts"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
