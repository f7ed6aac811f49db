INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b"}
  Clouds = {"s"}
  Twin = ""
  TwinOf = ""
  Sets = {{1, 2}, {2, 3}}
  AuthMode = "all"
  Junk = {}
  Changes = {"secret"}
  MaxOps = 8
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest NoHalfLeft Ended
PROPERTIES RightResult HonestRun OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
