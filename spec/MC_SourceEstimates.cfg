SPECIFICATION Spec
CONSTANTS
  NSources = 2
  Values = {"v1", "v2"}
  MaxSteps = 4
INVARIANTS NeverNaN RestKept Together MaxTogether OnlyVisited
PROPERTIES OneAtATime Apart
CHECK_DEADLOCK FALSE
