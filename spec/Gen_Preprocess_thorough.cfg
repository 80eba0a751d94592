SPECIFICATION Spec
CONSTANTS N = 3  MaxJobs = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
