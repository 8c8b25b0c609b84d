SPECIFICATION Spec
INVARIANTS WellFormed NilOptions Independent Position FailsRightly Omitted
CHECK_DEADLOCK FALSE
