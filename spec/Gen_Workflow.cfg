SPECIFICATION GenSpec
CONSTANTS MaxPre = 2
  MaxProc = 2
  MaxSrc = 2
  Events = {1, 2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
