CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- StringPieces
Start <- InString
MaxLen = 4
PlanLen = 4
Kind = "texts"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
