SPECIFICATION Spec
CONSTANTS
  Obs = {10}
  Values = {0, 1, 2, 4, 5}
  MaxIt = 5
  Tols = {0, 1, 2}
INVARIANTS NotBelow IsObsPlus AtConvergence Bounded Fixed
PROPERTIES Grows Ends
CHECK_DEADLOCK FALSE
