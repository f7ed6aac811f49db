INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c"}
  Elems = {0, 1}
  MaxLen = 6
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
