SPECIFICATION GenSpec
CONSTANTS
  EvYears = {3900, 3910}
  Mags = {402, 429, 500}
  NEvents = 3
  RowYears = {3890, 3905}
  RowMags = {400, 427}
  NRows = 2
  Widths = {20, 50}
  Refs = {427, 300}
INVARIANT Emit
CHECK_DEADLOCK FALSE
