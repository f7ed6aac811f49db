INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}}
  AuthMode = "all"
  Junk = {"forged", "malformed"}
  Changes = {}
  MaxOps = 6
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES RightResult HonestRun OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
