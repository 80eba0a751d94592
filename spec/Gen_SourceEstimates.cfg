SPECIFICATION Spec
CONSTANTS NSources = 2  MaxSteps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
