INIT Init
NEXT Next
INVARIANTS Table_ Decided Forms_ CaseOut
CHECK_DEADLOCK FALSE
