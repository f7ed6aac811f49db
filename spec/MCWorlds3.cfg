SPECIFICATION Spec
CONSTANTS
  Ws = {0, 1, 2}
  Size = 2
  Kinds = {"make", "add", "ask", "long"}
  WholeKey = TRUE
VIEW View
INVARIANTS Independent Bounded
CHECK_DEADLOCK FALSE
