INIT Init
NEXT Next
CONSTANTS
  Clients = {"a", "b", "x"}
  Clouds = {"s"}
  Twin = "x"
  TwinOf = "a"
  Sets = {{1, 2}}
  AuthMode = "all"
  Junk = {}
  Changes = {"auth", "id"}
  MaxOps = 6
  Record = FALSE
INVARIANTS Secrecy KeysFresh Latest Ended
PROPERTIES OnlyRequester RunsKeepTheRest RefusedForNothing
CHECK_DEADLOCK FALSE
