SPECIFICATION Spec
CONSTANTS
  Ws = {0, 1}
  Size = 4
  Kinds = {"ask"}
  WholeKey = TRUE
INVARIANTS Say
CHECK_DEADLOCK FALSE
