SPECIFICATION Spec
CONSTANTS
  Seeds <- MCSeeds
  Positions <- MCPositions
  MaxBits = 7
INVARIANTS HistoryIndependent WithinLength
CHECK_DEADLOCK FALSE
