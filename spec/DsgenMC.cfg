SPECIFICATION Spec
CONSTANTS MaxArgs = 2
 Counts = {0, 1, 12}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
