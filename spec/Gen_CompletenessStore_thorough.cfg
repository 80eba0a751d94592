SPECIFICATION Spec
CONSTANTS MaxOps = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
