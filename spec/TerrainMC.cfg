SPECIFICATION Spec
CONSTANTS
  N = 2
  R = 2
INVARIANTS AtMostOnce AsAsked Settled
PROPERTY Finishes
CHECK_DEADLOCK FALSE
