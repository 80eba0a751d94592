SPECIFICATION Spec
CONSTANTS N = 3  Fields = {"p", "q"}  Tokens = {"x", "y"}  MaxSteps = 4
INVARIANT Equivalence
PROPERTY Isolated
CHECK_DEADLOCK FALSE
