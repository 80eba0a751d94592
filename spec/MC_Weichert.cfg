SPECIFICATION Spec
CONSTANTS
  MaxBins = 3
  Periods = {1, 5}
  Counts = {0, 1, 7}
  Q = 8
  Top = 64
  Families <- ModelFamilies
INVARIANTS Bracket Unique NoRoot Exact Scales Arithmetic
CHECK_DEADLOCK FALSE
