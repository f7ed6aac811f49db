INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c", "d"}
  Contents = {0, 1, 2, 3}
  Cuts = {0, 1, 2, 3, 4}
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
