INIT Init
NEXT Next
CONSTANTS
  P = 7
  Load = 2
INVARIANTS Unmasked CommonAreRoots Leading Rare
CHECK_DEADLOCK FALSE
