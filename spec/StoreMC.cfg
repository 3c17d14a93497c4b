CONSTANT MaxOps = 3
SPECIFICATION Spec
INVARIANTS NonEmpty Placed NoSkipped Monotone Conserved
CHECK_DEADLOCK FALSE
