SPECIFICATION Spec
CONSTANT Steps = 5
INVARIANT Right Good Ordered
CHECK_DEADLOCK FALSE
