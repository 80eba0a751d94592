SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  PreLists <- MCPre
  ProcLists <- MCProc
INVARIANTS InputsKept AskedFor PrepIsPart NoResult Result WorkingIsUnflagged UnknownJob OwnInside
PROPERTIES OneFileAtATime Ends
CHECK_DEADLOCK FALSE
