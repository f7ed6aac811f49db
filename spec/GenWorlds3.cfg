SPECIFICATION Spec
CONSTANTS
  Ws = {0, 1, 2}
  Size = 2
  Kinds = {"ask"}
  WholeKey = TRUE
INVARIANTS Say
CHECK_DEADLOCK FALSE
