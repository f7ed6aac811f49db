INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c"}
  Seeds = {0, 1, 2, 3, 4, 5}
  Poss = {0, 1, 2, 3, 4, 5}
  Lens = {0, 1, 2, 3, 4, 5}
  Mods = {0, 1, 2}
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
