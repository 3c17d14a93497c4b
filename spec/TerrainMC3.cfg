SPECIFICATION Spec
CONSTANTS
  N = 2
  R = 3
INVARIANTS AtMostOnce AsAsked Settled
CHECK_DEADLOCK FALSE
