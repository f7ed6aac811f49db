INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b", "c"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}}
  AuthMode = "all"
  Junk = {}
  Changes = {}
  MaxOps = 9
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES RightResult HonestRun OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
