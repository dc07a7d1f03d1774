INIT Init
NEXT Next
INVARIANTS Decomposition Corrected Anniversary CaseOut
CHECK_DEADLOCK FALSE
