SPECIFICATION Spec
CONSTANTS MaxN = 10 Batch = 3
INVARIANTS Bounded Complete
CHECK_DEADLOCK FALSE
