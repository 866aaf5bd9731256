SPECIFICATION Spec
CONSTANT MaxCols = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
