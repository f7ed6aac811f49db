INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Elems = {0, 1}
  MaxLen = 2
  Record = FALSE
PROPERTIES Copies
CHECK_DEADLOCK FALSE
