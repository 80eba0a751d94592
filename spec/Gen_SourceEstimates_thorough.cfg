SPECIFICATION Spec
CONSTANTS NSources = 2  MaxSteps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
