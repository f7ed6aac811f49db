INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Gens = {"g"}
  Elems = {0, 1}
  Ks = {1, 2}
  Hs = {1, 2}
  Record = FALSE
CONSTRAINT Bound
INVARIANTS NeverOverfull Counted MarkedAreRandom NoReuse
PROPERTIES Kept
CHECK_DEADLOCK FALSE
