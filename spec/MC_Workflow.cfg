SPECIFICATION Spec
CONSTANTS MaxPre = 2
  MaxProc = 2
  MaxSrc = 2
  Events = {1, 2}
INVARIANTS Ordered OnlyAsked Complete NothingAfterFailure OwnEvents
PROPERTY Ends
CHECK_DEADLOCK FALSE
