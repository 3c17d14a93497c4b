SPECIFICATION Spec
CONSTANTS N = 3
 Top = 7
INVARIANTS Between AtSamples Slacked
PROPERTY NoJump
CHECK_DEADLOCK FALSE
