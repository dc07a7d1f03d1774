INIT Init
NEXT Next
INVARIANTS EmitDoc
PROPERTIES Terminates
