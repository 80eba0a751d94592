SPECIFICATION Spec
CONSTANT Step = 15000
INVARIANTS Sym Invariant MeridianAgrees EquatorAgrees ZeroOnlyEqual Range
CHECK_DEADLOCK FALSE
