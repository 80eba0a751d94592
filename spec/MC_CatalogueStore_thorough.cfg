SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "x"}
 Dirs = {"a", "b"}
 Values = {1, 2}
 MaxRows = 3
 MaxOps = 5
INVARIANTS LastWriteWins ReadIsLastWrite OnlyExistingDirs
PROPERTY OneFileAtATime
CHECK_DEADLOCK FALSE
