SPECIFICATION Spec
CONSTANTS MaxOps = 3 Size = 3
INVARIANTS Intact Emit
CHECK_DEADLOCK FALSE
