CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- NumberPieces
Start <- NoStart
MaxLen = 5
PlanLen = 5
Kind = "numbers"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
