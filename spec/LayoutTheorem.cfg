INIT Init
NEXT Next
CONSTANTS
  MaxL = 6
  MaxH = 5
  MaxExtra = 4
INVARIANT Once
CHECK_DEADLOCK FALSE
