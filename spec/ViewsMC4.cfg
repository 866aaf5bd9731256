SPECIFICATION Spec
CONSTANTS MaxOps = 4 Size = 3
INVARIANTS Intact Emit
CHECK_DEADLOCK FALSE
