INIT Init
NEXT Next
INVARIANTS Accepted OneRow BelowCount EveryFormUsed CaseOut
CHECK_DEADLOCK FALSE
