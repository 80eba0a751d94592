SPECIFICATION Spec
CONSTANTS Sources = {"a", "b", "c"}
  Events = {1, 2}
  Runs = 2
INVARIANTS Functional Untouched NeverStuck
CHECK_DEADLOCK FALSE
