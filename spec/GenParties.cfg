INIT Init
NEXT Next
CONSTANTS
  Messages = {1, 2, 3}
  Objects = {"a", "b", "c"}
  Values = {1, 2, 3}
  MaxMsg = 0
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
