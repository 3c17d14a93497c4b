SPECIFICATION Spec
CONSTANTS
  N = 5
INVARIANTS Apart Walled
CHECK_DEADLOCK FALSE
