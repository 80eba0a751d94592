SPECIFICATION GenSpec
CONSTANTS N = 3
  Mags = {400, 500, 650}
  Days = {0, 15, 60}
  Places = {0, 1}
  Step = 35000
  Wins = {2050, 5050}
INVARIANT Emit
CHECK_DEADLOCK FALSE
