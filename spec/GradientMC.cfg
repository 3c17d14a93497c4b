SPECIFICATION Spec
CONSTANTS Mids = {1, 10, 33, 50, 99} Steps = 16
INVARIANTS Sound Emit
