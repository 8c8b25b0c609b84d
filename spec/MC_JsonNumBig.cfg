CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- NumberPieces
Start <- NoStart
MaxLen = 6
PlanLen = 6
Kind = "numbers"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
