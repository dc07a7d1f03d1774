CONSTANTS
  Tags = {1, 3, 7}
  Domains = {"", "app"}
  Cats = {"", "cat"}
  ExtLists = {1, 3}
  MaxGone = 0
INIT Init
NEXT Next
INVARIANTS Outcome First OneLang LongestFirst CaseOut
CHECK_DEADLOCK FALSE
