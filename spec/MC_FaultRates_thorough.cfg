SPECIFICATION Spec
CONSTANTS
  Mins = {4000, 5000, 5150, 5999}
  Steps = {50, 100, 101, 250, 333, 1000}
  Maxs = {4900, 5000, 5001, 5500, 6000, 6001, 7250}
  Bs = {500, 800, 1000, 1234, 1450, 1499}
INVARIANTS Count Positive Falling Part Balance Covered
CHECK_DEADLOCK FALSE
