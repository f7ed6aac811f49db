INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Polys = {0, 1, 2}
  MaxN = 2
  Record = FALSE
INVARIANT FactorsOfNow
PROPERTIES NeverStale
CHECK_DEADLOCK FALSE
