SPECIFICATION Spec
CONSTANTS N = 4
  Mags = {400, 500, 650}
  Days = {0, 15, 60}
  Places = {0, 1}
  Step = 35000
  Wins = {2050}
INVARIANTS Shape InsideSpaceWindow Chained
PROPERTIES NeverReassigned
CHECK_DEADLOCK FALSE
