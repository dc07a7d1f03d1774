INIT Init
NEXT Next
INVARIANTS One Direction Units CaseOut
CHECK_DEADLOCK FALSE
