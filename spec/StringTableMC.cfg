SPECIFICATION Spec
CONSTANTS Strings = {"a", "b", "c"} MaxLen = 3
INVARIANTS Distinct Linear
PROPERTY Stable
CHECK_DEADLOCK FALSE
