INIT Init
NEXT Next
INVARIANT Judge
CHECK_DEADLOCK FALSE
