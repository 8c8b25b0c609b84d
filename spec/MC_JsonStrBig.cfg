CONSTANT WithHoles = FALSE
CONSTANT Others = {}
CONSTANTS Pieces <- StringPieces
Start <- InString
MaxLen = 5
PlanLen = 5
Kind = "texts"
SPECIFICATION Spec
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
