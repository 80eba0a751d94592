SPECIFICATION Spec
CONSTANTS MaxEvents = 3
 YearSpan = 4
 MagSet = {401, 415, 430}
 Tols = {200, 1000}
 Widths = {10, 25}
INVARIANTS OneRowPerBin Increasing YearsInSpan Locked EveryEventOnce CountsGrow
CHECK_DEADLOCK FALSE
