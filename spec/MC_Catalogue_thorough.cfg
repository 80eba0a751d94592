SPECIFICATION Spec
CONSTANT MaxRows = 2
INVARIANTS PrefixDelivered OnlySane ErrorIsFirstBadRow CompleteWhenDone HeaderFirst
CHECK_DEADLOCK FALSE
