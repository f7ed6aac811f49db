INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b", "c", "x"}
  Clouds = {"s", "u"}
  Twin = "x"
  TwinOf = "a"
  Sets = {{1}}
  AuthMode = "some"
  Junk = {"forged", "malformed", "stray"}
  Changes = {"auth", "secret", "id"}
  MaxOps = 500
  Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
