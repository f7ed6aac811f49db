INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Polys = {0, 1, 2, 3}
  MaxN = 3
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
