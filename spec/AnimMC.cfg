SPECIFICATION Spec
VIEW View
INVARIANTS EndsOnce InBounds Arrives Ends
PROPERTY Quiet
CHECK_DEADLOCK FALSE
