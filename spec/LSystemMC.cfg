SPECIFICATION Spec
CONSTANTS MaxLen = 3 Angle = 90
INVARIANTS Units Positive Rigid Undo SaveRestore Emit
