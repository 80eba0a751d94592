SPECIFICATION GenSpec
CONSTANTS
  MaxOps = 2
  MaxItems = 1
  Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
