INIT Init
NEXT Next
INVARIANTS Accepted OneRow Disjoint Listed EveryCategoryUsed SameAsGettext CaseOut
CHECK_DEADLOCK FALSE
