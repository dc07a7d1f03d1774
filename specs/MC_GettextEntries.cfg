INIT Init
NEXT Next
INVARIANTS Never CaseOut
CHECK_DEADLOCK FALSE
