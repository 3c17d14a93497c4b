SPECIFICATION Spec
INVARIANTS NoCycle Right StackIsPath
CHECK_DEADLOCK FALSE
