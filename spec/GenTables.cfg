INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Gens = {"g", "f"}
  Elems = {0, 1, 2, 3, 4, 5, 6, 7}
  Ks = {1, 2, 3, 4, 5}
  Hs = {0, 1, 2, 3, 4}
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
