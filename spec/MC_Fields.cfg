SPECIFICATION Spec
INVARIANTS Rule Once OwnFirst
CHECK_DEADLOCK FALSE
