SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Agrees MedianInside Emit
CHECK_DEADLOCK FALSE
