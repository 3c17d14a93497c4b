SPECIFICATION Spec
CONSTANTS MaxRules = 2
INVARIANTS Monotone Exclusive Levels
