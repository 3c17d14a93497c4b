SPECIFICATION Spec
CONSTANTS
  Loaders = {"a", "b", "c"}
  Locked = TRUE
INVARIANT NothingLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
