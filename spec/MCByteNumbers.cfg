INIT Init
NEXT Next
CONSTANTS
  Names = {"a"}
  Lens = {0, 1, 2}
  Datas <- MCDatas
  Nums <- MCNums
  Divisors <- MCDivisors
  Record = FALSE
  MaxBits = 9
CONSTRAINT Bound
INVARIANTS WellFormed Decimal BytesBack Remainder
PROPERTIES SetFits
CHECK_DEADLOCK FALSE
