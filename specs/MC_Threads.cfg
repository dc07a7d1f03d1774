INIT Init
NEXT Next
INVARIANTS AsAlone EmitFinal
PROPERTIES Immutable
