SPECIFICATION Spec
CONSTANTS
  NSources = 3
  Values = {"v1", "v2"}
  MaxSteps = 5
INVARIANTS NeverNaN RestKept Together MaxTogether OnlyVisited
PROPERTIES OneAtATime Apart
CHECK_DEADLOCK FALSE
