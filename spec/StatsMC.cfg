SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Agrees MedianInside Emit
CHECK_DEADLOCK FALSE
