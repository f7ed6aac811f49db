SPECIFICATION Spec
CONSTANTS
  Ws = {0, 1}
  Size = 4
  Kinds = {"make", "add", "ask", "long"}
  WholeKey = TRUE
VIEW View
INVARIANTS Independent Bounded
CHECK_DEADLOCK FALSE
