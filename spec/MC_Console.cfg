SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  MaxEvents = 2
INVARIANTS Agrees OnlyNamed NoLine Anywhere LastCounts LogOnlyDetailed LogAll Quiet
PROPERTY Ended
CHECK_DEADLOCK FALSE
