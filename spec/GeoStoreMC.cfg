CONSTANT MaxOps = 4
SPECIFICATION Spec
INVARIANTS Union Cancelled
PROPERTIES Unknown Others KeysKept
CHECK_DEADLOCK FALSE
