INIT Init
NEXT Next
INVARIANTS Exact CutSafe CaseOut
CHECK_DEADLOCK FALSE
