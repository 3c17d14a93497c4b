CONSTANTS K = 5 MaxCap = 4 MaxOps = 40
SPECIFICATION Spec
INVARIANTS TypeOK Lru Order Emit
CHECK_DEADLOCK FALSE
