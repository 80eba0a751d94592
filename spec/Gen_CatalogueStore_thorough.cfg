SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "x"}  Dirs = {"a", "b"}  MaxOps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
