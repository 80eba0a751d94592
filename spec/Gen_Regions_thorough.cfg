SPECIFICATION GenSpec
CONSTANTS
  MaxOps = 2
  MaxItems = 2
  Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
