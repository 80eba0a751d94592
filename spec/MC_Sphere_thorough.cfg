SPECIFICATION Spec
CONSTANT Step = 5000
INVARIANTS Sym Invariant MeridianAgrees EquatorAgrees ZeroOnlyEqual Range
CHECK_DEADLOCK FALSE
