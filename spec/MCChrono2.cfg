INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Cursors = {"x"}
  Ticks = {700, 1500}
  MaxTimes = 3
  MaxNow = 3000
  Record = FALSE
INVARIANTS Ordered NoDoublePause Between Whole CursorsRight FirstInterval
PROPERTIES StoppedStays
CHECK_DEADLOCK FALSE
