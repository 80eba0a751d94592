SPECIFICATION Spec
CONSTANTS N = 2  Fields = {"p", "q"}  Tokens = {"x", "y"}  MaxSteps = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
