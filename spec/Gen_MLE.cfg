SPECIFICATION GenSpec
CONSTANTS
  EvYears = {3900, 3910}
  Mags = {402, 500}
  NEvents = 2
  RowYears = {3890, 3905}
  RowMags = {400, 427}
  NRows = 2
  Widths = {20, 50}
  Refs = {400, 500}
INVARIANT Emit
CHECK_DEADLOCK FALSE
