INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c"}
  Cursors = {"x", "y", "z"}
  Ticks = {0, 1, 2, 3, 4}
  MaxTimes = 40
  MaxNow = 0
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
