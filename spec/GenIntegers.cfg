INIT Init
NEXT NextI
CONSTANTS
  Names = {"a", "b", "c", "d"}
  Seeds = {0, 1, 2}
  Poss = {0, 1, 2}
  Lens = {0, 1, 2, 3, 4, 5}
  Mods = {0, 1, 2}
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
