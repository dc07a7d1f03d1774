INIT Init
NEXT Next
INVARIANTS RoundTrip Negation Exclusive CaseOut
CHECK_DEADLOCK FALSE
