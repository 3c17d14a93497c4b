SPECIFICATION Spec
CONSTANT Failures = 1
CONSTANT Ids = {1, 2, 5}
CONSTANT Key <- FastKey
INVARIANTS Kept OnceWritten EleFirst HasData Raw Shared
PROPERTY Served
CHECK_DEADLOCK FALSE
