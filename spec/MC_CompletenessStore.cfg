SPECIFICATION Spec
CONSTANTS Ints = {0, 1, 2}
 MaxRows = 2
 MaxOps = 3
INVARIANT Faithful
PROPERTY Idempotent
CHECK_DEADLOCK FALSE
