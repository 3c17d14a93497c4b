SPECIFICATION Spec
CONSTANT W = 67108864
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
