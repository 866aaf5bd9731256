SPECIFICATION Spec
CONSTANTS MaxN = 7 Batch = 3
INVARIANTS Bounded Complete
CHECK_DEADLOCK FALSE
