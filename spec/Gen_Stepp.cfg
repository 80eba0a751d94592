SPECIFICATION GenSpec
CONSTANTS MaxEvents = 3
 YearSpan = 4
 MagSet = {401, 415, 430}
 Tols = {200, 1000}
 Widths = {10, 25}
INVARIANT Emit
CHECK_DEADLOCK FALSE
