SPECIFICATION Spec
CONSTANTS Strings = {"a", "b", "c"} MaxLen = 3 MaxData = 5 Ordered = TRUE
INVARIANT Recovered
PROPERTY Refines
CHECK_DEADLOCK FALSE
