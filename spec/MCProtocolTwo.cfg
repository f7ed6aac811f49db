INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b"}
  Clouds = {"s", "u"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}}
  AuthMode = "all"
  Junk = {}
  Changes = {}
  MaxOps = 7
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES RightResult HonestRun OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
