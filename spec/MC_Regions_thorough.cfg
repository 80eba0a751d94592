SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxItems = 2
  Rich = FALSE
INVARIANT AllValid
PROPERTIES Isolated Created
CHECK_DEADLOCK FALSE
