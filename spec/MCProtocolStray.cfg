INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}}
  AuthMode = "all"
  Junk = {"forged", "malformed", "stray"}
  Changes = {"secret"}
  MaxOps = 4
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES  OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
