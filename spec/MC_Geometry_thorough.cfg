SPECIFICATION Spec
CONSTANTS G = 3
  N = 4
INVARIANTS Invariant Triangle BoundaryOut Bounded Cut
CHECK_DEADLOCK FALSE
