SPECIFICATION Spec
CONSTANT MaxCols = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
