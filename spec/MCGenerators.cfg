INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Seeds = {0, 1}
  Poss = {0}
  Lens = {0, 1}
  Mods = {5, 7}
  Record = FALSE
CONSTRAINT Bound
INVARIANTS TypeOK SeededBeforeNext
PROPERTIES SeedKept Shared
CHECK_DEADLOCK FALSE
