SPECIFICATION Spec
CONSTANTS
  MaxTokens = 6
  MaxEvents = 3
INVARIANTS Agrees OnlyNamed NoLine Anywhere LastCounts LogOnlyDetailed LogAll Quiet
PROPERTY Ended
CHECK_DEADLOCK FALSE
