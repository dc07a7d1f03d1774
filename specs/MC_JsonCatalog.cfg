INIT Init
NEXT Next
INVARIANTS OneReading WellFormed Answered CaseOut
CHECK_DEADLOCK FALSE
