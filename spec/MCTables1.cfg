INIT Init
NEXT Next
CONSTANTS
  Names = {"a"}
  Gens = {"g"}
  Elems = {0, 1}
  Ks = {1, 2}
  Hs = {0, 1, 2}
  Record = FALSE
CONSTRAINT Bound
INVARIANTS NeverOverfull Counted MarkedAreRandom NoReuse
PROPERTIES Kept
CHECK_DEADLOCK FALSE
