SPECIFICATION Spec
INVARIANTS Speaks Defined Conserved
CHECK_DEADLOCK FALSE
