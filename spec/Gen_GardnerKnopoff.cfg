SPECIFICATION GenSpec
CONSTANTS N = 3
  Mags = {400, 500, 650}
  Days = {0, 15, 60}
  Places = {0, 1}
  Step = 35000
  Pcts = {0, 50}
INVARIANT Emit
CHECK_DEADLOCK FALSE
