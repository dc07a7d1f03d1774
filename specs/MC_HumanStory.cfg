INIT Init
NEXT Next
INVARIANTS OneLanguage AlwaysAnswers CaseOut
PROPERTY Kept
CHECK_DEADLOCK FALSE
