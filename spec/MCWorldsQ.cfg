SPECIFICATION Spec
CONSTANTS
  Ws = {0, 1}
  Size = 3
  Kinds = {"make", "add", "dbl", "ask", "long"}
  WholeKey = TRUE
VIEW View
INVARIANTS Independent Bounded
CHECK_DEADLOCK FALSE
