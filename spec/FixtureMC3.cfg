SPECIFICATION Spec
CONSTANT MaxFiles = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
