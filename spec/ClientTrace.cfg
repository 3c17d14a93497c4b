SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Whole <- ClientWhole
