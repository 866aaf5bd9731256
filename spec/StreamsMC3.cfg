SPECIFICATION Spec
CONSTANTS MaxN = 3 Threads = 3 MaxOps = 2
INVARIANTS Explained NothingWaits EachOnce Emit
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
