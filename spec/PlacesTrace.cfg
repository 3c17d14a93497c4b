SPECIFICATION PlacesSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Whole <- ClientWhole
