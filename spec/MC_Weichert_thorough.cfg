SPECIFICATION Spec
CONSTANTS
  MaxBins = 4
  Periods = {0, 1, 30}
  Counts = {0, 1, 7}
  Q = 8
  Top = 64
  Families <- ModelFamilies
INVARIANTS Bracket Unique NoRoot Exact Scales Arithmetic
CHECK_DEADLOCK FALSE
