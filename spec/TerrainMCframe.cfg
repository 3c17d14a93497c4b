SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 2
INVARIANTS AtMostOnce AsAsked Settled
PROPERTY Finishes
CHECK_DEADLOCK FALSE
