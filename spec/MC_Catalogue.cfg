SPECIFICATION Spec
CONSTANT MaxRows = 1
INVARIANTS PrefixDelivered OnlySane ErrorIsFirstBadRow CompleteWhenDone HeaderFirst
PROPERTY Terminates
CHECK_DEADLOCK FALSE
