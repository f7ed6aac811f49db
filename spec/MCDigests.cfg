INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Contents <- MCContents
  Cuts = {0, 1}
  Record = FALSE
INVARIANTS LastIsOwn
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
