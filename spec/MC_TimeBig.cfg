CONSTANTS Days <- AllDays
Secs <- EdgeSecs
Nanos <- EdgeNanos
PlanYears <- AllYears
SPECIFICATION Spec
INVARIANTS NextDay FirstDay DurRight TruncRight
CHECK_DEADLOCK FALSE
