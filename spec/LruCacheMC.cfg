CONSTANTS K = 4 MaxCap = 3 MaxOps = 1000
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Lru Order
CHECK_DEADLOCK FALSE
