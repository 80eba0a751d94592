SPECIFICATION Spec
CONSTANTS
  Mins = {5000, 5150}
  Steps = {100, 250, 333}
  Maxs = {4900, 5000, 5001, 5500, 6000}
  Bs = {800, 1000, 1450}
INVARIANTS Count Positive Falling Part Balance Covered
CHECK_DEADLOCK FALSE
