SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
