SPECIFICATION Spec
CONSTANTS MaxPre = 3
  MaxProc = 3
  MaxSrc = 3
  Events = {1, 2}
INVARIANTS Ordered OnlyAsked Complete NothingAfterFailure OwnEvents
PROPERTY Ends
CHECK_DEADLOCK FALSE
