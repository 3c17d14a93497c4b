SPECIFICATION Spec
INVARIANT Right AtMostOnce NothingLost
CHECK_DEADLOCK FALSE
