SPECIFICATION Spec
CONSTANTS
  Paths = {"a", "b", "c"}
  Dirs = {"a", "b"}
  Ids = {"s1", "s2"}
  MaxSources = 2
  MaxWriters = 3
  MaxOps = 6
INVARIANTS ReadsBack OnlyExistingDirs
PROPERTIES OneFileAtATime MakingWritesNothing
CHECK_DEADLOCK FALSE
