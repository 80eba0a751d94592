SPECIFICATION Spec
CONSTANTS
  Paths = {"a", "b", "c"}
  Dirs = {"a", "b"}
  Ids = {"s1", "s2"}
  MaxSources = 2
  MaxWriters = 2
  MaxOps = 4
INVARIANTS ReadsBack OnlyExistingDirs
PROPERTIES OneFileAtATime MakingWritesNothing
CHECK_DEADLOCK FALSE
