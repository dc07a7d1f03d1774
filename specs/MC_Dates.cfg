INIT Init
NEXT Next
INVARIANTS Agree CaseOut
CHECK_DEADLOCK FALSE
