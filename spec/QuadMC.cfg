SPECIFICATION Spec
CONSTANT W = 8
CONSTANT MaxLevel = 3
INVARIANT Right
INVARIANT NeverTwice
CHECK_DEADLOCK FALSE
