INIT Init
NEXT Next
CONSTANTS
  Primes = {3, 5, 7}
  Deg = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
