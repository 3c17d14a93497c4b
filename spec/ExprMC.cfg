SPECIFICATION Spec
CONSTANTS MaxOps = 2
INVARIANTS LeftToRight Lowest Undone Emit
