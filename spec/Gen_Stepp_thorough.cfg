SPECIFICATION GenSpec
CONSTANTS MaxEvents = 4
 YearSpan = 6
 MagSet = {401, 415, 430}
 Tols = {200, 1000}
 Widths = {10, 25}
INVARIANT Emit
CHECK_DEADLOCK FALSE
