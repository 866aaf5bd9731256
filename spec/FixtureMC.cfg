SPECIFICATION Spec
CONSTANT MaxFiles = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
