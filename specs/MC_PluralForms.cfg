INIT Init
NEXT Next
INVARIANTS RoundTrip Boolean DeMorgan CaseOut
CHECK_DEADLOCK FALSE
