SPECIFICATION Spec
CONSTANTS
  Years = {3900, 3904, 3905}
  Mags = {396, 402, 449, 500}
  NEvents = 3
  RowYears = {3890, 3902, 3905}
  RowMags = {400, 430, 500}
  NRows = 2
  Widths = {20, 50}
  Spans = {2, 5}
INVARIANTS HaveBins InBin Final Total EndsClose LowTable
CHECK_DEADLOCK FALSE
