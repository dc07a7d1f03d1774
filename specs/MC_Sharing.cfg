INIT Init
NEXT Next
INVARIANTS LibraryUnchanged EmitFinal
PROPERTIES OthersUnchanged
