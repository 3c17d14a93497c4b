SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1, 2, 3}
  Most = 2
  Orders = {"int", "reverse"}
INVARIANTS Walks Ends Synced
CHECK_DEADLOCK FALSE
