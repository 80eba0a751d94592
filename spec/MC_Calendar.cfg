SPECIFICATION Spec
CONSTANTS FirstYear = 1850
 LastYear = 2005
INVARIANTS Agrees Epochs InYear
PROPERTY OwnDay
CHECK_DEADLOCK FALSE
