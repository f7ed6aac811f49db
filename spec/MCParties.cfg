INIT Init
NEXT Next
CONSTANTS
  Messages = {1, 2}
  Objects = {"a", "b"}
  Values = {1, 2}
  MaxMsg = 6
  Record = FALSE
INVARIANTS Lengths Strangers
PROPERTIES OneAtATime NeverOneself
CHECK_DEADLOCK FALSE
