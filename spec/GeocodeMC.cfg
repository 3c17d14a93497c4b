SPECIFICATION Spec
INVARIANTS Complete Once Silence
CHECK_DEADLOCK FALSE
