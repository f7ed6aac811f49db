INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}}
  AuthMode = "any"
  Junk = {}
  Changes = {}
  MaxOps = 5
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES RightResult HonestRun OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
