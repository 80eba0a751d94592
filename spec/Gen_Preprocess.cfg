SPECIFICATION Spec
CONSTANTS N = 3  MaxJobs = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
