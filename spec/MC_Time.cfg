CONSTANTS Days <- EdgeDays
Secs <- EdgeSecs
Nanos <- EdgeNanos
PlanYears <- SomeYears
SPECIFICATION Spec
INVARIANTS NextDay FirstDay DurRight TruncRight
CHECK_DEADLOCK FALSE
