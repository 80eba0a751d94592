SPECIFICATION Spec
INVARIANTS Positive NeverShrinksMuch
PROPERTIES SpaceGrows TimeGrows OneChange
CHECK_DEADLOCK FALSE
