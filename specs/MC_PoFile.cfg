INIT Init
NEXT Next
INVARIANTS TranslationsKept IdsKept Closed SameAsText CaseOut
PROPERTY Prefix
CHECK_DEADLOCK FALSE
