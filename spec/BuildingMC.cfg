SPECIFICATION Spec
CONSTANTS
  N = 2
INVARIANTS Closed Balanced OnceEach
PROPERTY Done
CHECK_DEADLOCK FALSE
