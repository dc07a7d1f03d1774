INIT Init
NEXT Next
INVARIANTS Unique NothingLost NoEmptyId FirstWins CommentsKept DuplicateFree Commutes CaseOut
CHECK_DEADLOCK FALSE
