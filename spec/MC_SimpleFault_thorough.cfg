SPECIFICATION Spec
CONSTANTS
  MaxPoints = 3
INVARIANTS Limits NoNan Additive Repeated
PROPERTY Monotone
CHECK_DEADLOCK FALSE
