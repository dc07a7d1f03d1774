INIT Init
NEXT Next
INVARIANTS Lossless Literal Shrinks Incremental CaseOut
CHECK_DEADLOCK FALSE
