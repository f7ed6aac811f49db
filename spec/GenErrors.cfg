INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c"}
  Msgs = {0, 1, 2, 3}
  Codes = {0, 1, 2, 3}
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
