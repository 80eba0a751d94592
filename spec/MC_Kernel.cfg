SPECIFICATION Spec
CONSTANTS
  Steps = 12
  Mags = {400, 407, 450, 530}
  MaxN = 3
INVARIANTS Rises Symmetric Between Ends Width IntegralBounds
CHECK_DEADLOCK FALSE
