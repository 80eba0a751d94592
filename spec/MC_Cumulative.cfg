SPECIFICATION Spec
CONSTANTS
  Years = {1, 2, 3, 4}
  Moments = {1, 3, 40}
  MaxEvents = 3
INVARIANTS ByDefinition Balanced OneYear Below OrderFree YearFree Scales EvenOnly
CHECK_DEADLOCK FALSE
