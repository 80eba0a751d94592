SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "x"}  Dirs = {"a", "b"}  Models = {1, 2, 3}  MaxOps = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
