INIT Init
NEXT Next
INVARIANTS Grouping Ordinals Counting Sizes UnitFits CaseOut
CHECK_DEADLOCK FALSE
