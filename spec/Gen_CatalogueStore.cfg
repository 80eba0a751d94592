SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "x"}  Dirs = {"a", "b"}  MaxOps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
