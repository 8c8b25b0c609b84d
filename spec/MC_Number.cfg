CONSTANTS Limbs <- LimbSet
Mantissas <- MantissaSet
NegX = 330
MaxX = 310
SPECIFICATION Spec
INVARIANTS IntRight FloatRight
CHECK_DEADLOCK FALSE
