INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Msgs = {0, 1}
  Codes = {0, 2, 300}
  Record = FALSE
INVARIANT EndsWithCode
PROPERTIES EndsOnlyByMaking
CHECK_DEADLOCK FALSE
