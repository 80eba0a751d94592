SPECIFICATION Spec
CONSTANTS FirstYear = 1583
 LastYear = 2400
INVARIANTS Agrees Epochs InYear
PROPERTY OwnDay
CHECK_DEADLOCK FALSE
