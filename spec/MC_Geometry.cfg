SPECIFICATION Spec
CONSTANTS G = 2
  N = 4
INVARIANTS Invariant Triangle BoundaryOut Bounded Cut
CHECK_DEADLOCK FALSE
