SPECIFICATION Spec
CONSTANTS N = 3
  Mags = {400, 500, 650}
  Days = {0, 15, 60}
  Places = {0, 1}
  Step = 35000
  Pcts = {0, 50}
INVARIANTS Shape InsideMainWindows Maximal
PROPERTIES NeverReassigned
CHECK_DEADLOCK FALSE
