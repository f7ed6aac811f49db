INIT Init
NEXT Next
CONSTANTS
  Names = {"a"}
  Cursors = {"x"}
  Ticks = {700, 1500}
  MaxTimes = 4
  MaxNow = 3700
  Record = FALSE
INVARIANTS Ordered NoDoublePause Between Whole CursorsRight FirstInterval
PROPERTIES StoppedStays
CHECK_DEADLOCK FALSE
