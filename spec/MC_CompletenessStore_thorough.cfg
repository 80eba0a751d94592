SPECIFICATION Spec
CONSTANTS Ints = {0, 1, 2, 3}
 MaxRows = 2
 MaxOps = 4
INVARIANT Faithful
PROPERTY Idempotent
CHECK_DEADLOCK FALSE
