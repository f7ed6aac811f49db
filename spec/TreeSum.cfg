SPECIFICATION Spec
CONSTANTS
  Length = 40
  MaxLen = 45
INVARIANT EachTermOnce
CHECK_DEADLOCK FALSE
