SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxItems = 1
  Rich = FALSE
INVARIANT AllValid
PROPERTIES Isolated Created
CHECK_DEADLOCK FALSE
