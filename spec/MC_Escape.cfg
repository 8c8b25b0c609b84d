CONSTANT Wide = 0
CONSTANT Others = {}
CONSTANTS Alphabet = {97, 34, 92, 10, 0, 60, 127, 195, 169, 226, 128, 168, 167, 237, 160, 240, 144, 244, 193, 224, 255}
MaxLen = 3
PlanLen = 3
SPECIFICATION Spec
INVARIANTS Faithful Scanner Stable
CHECK_DEADLOCK FALSE
