INIT Init
NEXT Next
INVARIANTS WellFormed RoundTrip CaseOut
PROPERTY CatalogAlone
CHECK_DEADLOCK FALSE
