INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b", "c"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1}}
  AuthMode = "all"
  Junk = {"forged", "malformed"}
  Changes = {"secret"}
  MaxOps = 500
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
