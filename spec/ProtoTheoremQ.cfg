INIT Init
NEXT Next
CONSTANTS
  P = 5
  Load = 2
INVARIANTS Unmasked CommonAreRoots Leading Rare
CHECK_DEADLOCK FALSE
