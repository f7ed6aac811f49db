INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Lens = {0, 1, 2, 3, 4}
  Datas = {0, 1, 2, 3, 4, 5}
  Nums = {0, 1, 2, 3, 4}
  Divisors = {}
  Record = TRUE
  MaxBits = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
