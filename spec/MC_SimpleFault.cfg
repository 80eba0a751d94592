SPECIFICATION Spec
CONSTANTS
  MaxPoints = 2
INVARIANTS Limits NoNan Additive Repeated
PROPERTY Monotone
CHECK_DEADLOCK FALSE
