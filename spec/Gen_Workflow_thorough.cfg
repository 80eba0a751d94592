SPECIFICATION GenSpec
CONSTANTS MaxPre = 3
  MaxProc = 3
  MaxSrc = 3
  Events = {1, 2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
