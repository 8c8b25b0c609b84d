CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- WordPieces
Start <- NoStart
MaxLen = 3
PlanLen = 3
Kind = "texts"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
