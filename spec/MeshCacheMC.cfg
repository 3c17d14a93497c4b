CONSTANT MaxSteps = 8
SPECIFICATION Spec
INVARIANTS Whole OnDisk OneWriter NotTouched HitsAreWhole
CHECK_DEADLOCK FALSE
