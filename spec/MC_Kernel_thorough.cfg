SPECIFICATION Spec
CONSTANTS
  Steps = 60
  Mags = {400, 407, 450, 530}
  MaxN = 5
INVARIANTS Rises Symmetric Between Ends Width IntegralBounds
CHECK_DEADLOCK FALSE
