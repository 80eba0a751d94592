SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "x"}
 Dirs = {"a", "b"}
 Values = {1, 2}
 MaxRows = 2
 MaxOps = 4
INVARIANTS LastWriteWins ReadIsLastWrite OnlyExistingDirs
PROPERTY OneFileAtATime
CHECK_DEADLOCK FALSE
