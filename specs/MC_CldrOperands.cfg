INIT Init
NEXT Next
INVARIANTS Defined SignFree Compact CaseOut
CHECK_DEADLOCK FALSE
