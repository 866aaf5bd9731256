SPECIFICATION Spec
CONSTANTS MaxN = 3 Threads = 2 MaxOps = 3
INVARIANTS Explained NothingWaits EachOnce Emit
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
