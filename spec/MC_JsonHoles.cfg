CONSTANT WithHoles = TRUE
CONSTANTS Pieces = {}
Start <- NoStart
Others <- HoleTexts
Texts <- HoleTexts
MaxLen = 0
PlanLen = 0
Kind = "texts"
SPECIFICATION SpecOthers
INVARIANTS Grammar CompactIs Compacts
CHECK_DEADLOCK FALSE
